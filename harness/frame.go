package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a check says about one case.
type Obs struct {
	nontrivial bool
	labels     []string
	sample     string
}

func (o *Obs) Nontrivial(b bool) {
	if b {
		o.nontrivial = true
	}
}

func (o *Obs) Label(b bool, label string) {
	if b && !slices.Contains(o.labels, label) {
		o.labels = append(o.labels, label)
	}
}

func (o *Obs) Sample(s string) { o.sample = s }

// Part is a generated (or enumerated) check that decides a property, or part of it.
type Part struct {
	Property string
	Name     string
	Quick    int // number of generated cases over all shards; 0 for an enumeration
	Thorough int
	run      func(env *Env, t *testing.T, p *Part)
	replay   func(raw json.RawMessage) error
}

var parts []*Part

// Env is the configuration of one shard of a run.
type Env struct {
	property string
	part     string
	tier     string
	seed     uint64
	shard    int
	shards   int
	out      string
	trace    bool
	scale    float64

	mu      sync.Mutex
	started time.Time
	current func() []byte
	stats   Stats
	hashes  map[uint64]bool
	frozen  bool
}

type Stats struct {
	Evaluations int
	Nontrivial  int
	Hashes      []uint64
	Labels      map[string]int
	Parts       map[string]int
	Enumerated  map[string]int
	Samples     []string
	Wall        float64
}

// Failure is the contents of a replay file.
type Failure struct {
	Property    string          `json:"property"`
	Part        string          `json:"part"`
	Kind        string          `json:"kind"`
	Message     string          `json:"message"`
	Description string          `json:"description"`
	Case        json.RawMessage `json:"case"`
}

func (e *Env) save(name string, f Failure) {
	b, _ := json.MarshalIndent(f, "", " ")
	tmp := filepath.Join(e.out, name+".tmp")
	if err := os.WriteFile(tmp, b, 0644); err == nil {
		os.Rename(tmp, filepath.Join(e.out, name))
	}
}

// describe returns the human readable form of a case.
func describe(c any) string {
	s := ""
	if v, ok := c.(fmt.Stringer); ok {
		s = v.String()
	} else {
		b, _ := json.Marshal(c)
		s = string(b)
	}
	return clip(s, 6000)
}

func protect[C any](check func(C, *Obs) error, c C, o *Obs) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v\n%s", x, clip(string(debug.Stack()), 4000))
		}
	}()
	return check(c, o)
}

func evaluate[C any](e *Env, p *Part, c C, check func(C, *Obs) error) error {
	failure := func(kind, message string) Failure {
		raw, _ := json.Marshal(c)
		return Failure{Property: p.Property, Part: p.Name, Kind: kind, Message: message, Description: describe(c), Case: raw}
	}
	if e.trace || p.Name == "concurrent" {
		e.save("current.json", failure("crash", "the process died"))
	}
	e.mu.Lock()
	e.started = time.Now()
	e.current = func() []byte {
		b, _ := json.MarshalIndent(failure("", ""), "", " ")
		return b
	}
	e.mu.Unlock()

	o := &Obs{}
	err := protect(check, c, o)

	e.mu.Lock()
	e.started = time.Time{}
	e.mu.Unlock()

	if !e.frozen {
		s := &e.stats
		s.Evaluations++
		s.Parts[p.Name]++
		for _, l := range o.labels {
			s.Labels[l]++
		}
		if o.nontrivial {
			raw, _ := json.Marshal(c)
			h := fnv.New64a()
			h.Write([]byte(p.Name))
			h.Write(raw)
			if k := h.Sum64(); !e.hashes[k] {
				e.hashes[k] = true
				if n := len(e.hashes); n <= 3 || n == 50 || n == 500 {
					d := o.sample
					if d == "" {
						d = describe(c)
					}
					s.Samples = append(s.Samples, clip(p.Name+": "+d, 900))
				}
			}
		}
	}
	if err != nil {
		e.frozen = true // the rest is shrinking
		e.save("violation.json", failure("violation", err.Error()))
	}
	return err
}

func mix(values ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, values...)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func replayer[C any](check func(C, *Obs) error) func(raw json.RawMessage) error {
	return func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			fmt.Fprintf(os.Stderr, "unreadable case: %v\n", err)
			os.Exit(4)
		}
		return protect(check, c, &Obs{})
	}
}

// property registers a generated check.
func property[C any](id, name string, quick, thorough int, gen func(t *rapid.T) C, check func(C, *Obs) error) {
	parts = append(parts, &Part{Property: id, Name: name, Quick: quick, Thorough: thorough,
		run: func(e *Env, t *testing.T, p *Part) {
			n := p.Quick
			if e.tier == "thorough" {
				n = p.Thorough
			}
			n = int(float64(n)*e.scale) / e.shards
			if n < 1 {
				n = 1
			}
			flag.Set("rapid.checks", strconv.Itoa(n))
			flag.Set("rapid.seed", strconv.FormatUint(mix(e.seed, e.shard, id, name), 10))
			flag.Set("rapid.nofailfile", "true")
			flag.Set("rapid.shrinktime", "20s")
			rapid.Check(t, func(t *rapid.T) {
				c := gen(t)
				if err := evaluate(e, p, c, check); err != nil {
					t.Fatalf("%v", err)
				}
			})
		},
		replay: replayer(check),
	})
}

// enumeration registers an exhaustive check of a finite list of cases.
func enumeration[C any](id, name string, list func(tier string, yield func(C)), check func(C, *Obs) error) {
	parts = append(parts, &Part{Property: id, Name: name,
		run: func(e *Env, t *testing.T, p *Part) {
			i := 0
			list(e.tier, func(c C) {
				i++
				if i%e.shards != e.shard || t.Failed() {
					return
				}
				e.stats.Enumerated[p.Name]++
				if err := evaluate(e, p, c, check); err != nil {
					t.Errorf("%v", err)
				}
			})
		},
		replay: replayer(check),
	})
}

func getenv(name, defval string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return defval
}

func (e *Env) watchdog(limit time.Duration, memory uint64) {
	report := func(kind, message string) {
		e.mu.Lock()
		defer e.mu.Unlock()
		f := Failure{}
		if e.current != nil {
			json.Unmarshal(e.current(), &f)
		}
		f.Kind, f.Message = kind, message
		e.save("stuck.json", f)
		fmt.Printf("STUCK %s %s\n", kind, message)
		os.Exit(3)
	}
	for {
		time.Sleep(250 * time.Millisecond)
		e.mu.Lock()
		started := e.started
		e.mu.Unlock()
		if !started.IsZero() && time.Since(started) > limit {
			report("hang", fmt.Sprintf("no result after %v", limit))
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memory {
			report("memory", fmt.Sprintf("more than %d MB of memory in use", memory>>20))
		}
	}
}

func run(t *testing.T) {
	log.SetOutput(io.Discard) // the tree under test logs warnings
	if os.Getenv("VP_CHILD") != "" {
		child()
	}
	atoi := func(name, defval string) int {
		n, err := strconv.Atoi(getenv(name, defval))
		if err != nil {
			t.Fatalf("invalid %s", name)
		}
		return n
	}
	e := &Env{
		property: os.Getenv("VP_PROPERTY"),
		part:     os.Getenv("VP_PART"),
		tier:     getenv("VP_TIER", "quick"),
		seed:     uint64(atoi("VP_SEED", "1")),
		shard:    atoi("VP_SHARD", "0"),
		shards:   atoi("VP_SHARDS", "1"),
		out:      getenv("VP_OUT", "."),
		trace:    os.Getenv("VP_TRACE") != "",
		scale:    1,
		stats:    Stats{Labels: map[string]int{}, Parts: map[string]int{}, Enumerated: map[string]int{}},
		hashes:   map[uint64]bool{},
	}
	if v, err := strconv.ParseFloat(getenv("VP_SCALE", "1"), 64); err == nil {
		e.scale = v
	}
	if e.property == "" {
		t.Skip("VP_PROPERTY not set")
	}
	limit := time.Duration(atoi("VP_CASE_SECONDS", "60")) * time.Second
	go e.watchdog(limit, uint64(atoi("VP_CASE_MB", "2500"))<<20)

	if file := os.Getenv("VP_REPLAY"); file != "" {
		b, err := os.ReadFile(file)
		if err != nil {
			t.Fatal(err)
		}
		f := Failure{}
		if err := json.Unmarshal(b, &f); err != nil {
			t.Fatal(err)
		}
		for _, p := range parts {
			if p.Property == f.Property && p.Name == f.Part {
				e.mu.Lock()
				e.started = time.Now()
				e.current = func() []byte { return b }
				e.mu.Unlock()
				if err := p.replay(f.Case); err != nil {
					fmt.Printf("REPLAY FAILED\n%s\n%v\n", f.Description, err)
					os.Exit(1)
				}
				fmt.Printf("REPLAY PASSED\n")
				os.Exit(0)
			}
		}
		fmt.Printf("no such check: %s/%s\n", f.Property, f.Part)
		os.Exit(4)
	}

	if e.shard == 0 {
		probeFindings(e)
	}
	start := time.Now()
	found := false
	for _, p := range parts {
		if p.Property != e.property || (e.part != "" && e.part != p.Name) {
			continue
		}
		found = true
		t0 := time.Now()
		ok := t.Run(p.Name, func(t *testing.T) { p.run(e, t, p) })
		fmt.Printf("PART %s %d evaluations %.1fs\n", p.Name, e.stats.Parts[p.Name], time.Since(t0).Seconds())
		if !ok {
			break
		}
	}
	if !found {
		t.Fatalf("no checks for property %s", e.property)
	}
	s := &e.stats
	s.Wall = time.Since(start).Seconds()
	s.Nontrivial = len(e.hashes)
	for k := range e.hashes {
		s.Hashes = append(s.Hashes, k)
	}
	sort.Slice(s.Hashes, func(i, j int) bool { return s.Hashes[i] < s.Hashes[j] })
	b, _ := json.Marshal(s)
	if err := os.WriteFile(filepath.Join(e.out, "stats.json"), b, 0644); err != nil {
		t.Fatal(err)
	}
}

// first lines of a text, for messages
func head(s string, n int) string {
	lines := strings.SplitN(s, "\n", n+1)
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}
