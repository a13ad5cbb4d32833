package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/transcriptaze/midiasm/midi"
	"pgregory.net/rapid"
)

// C12 in fresh processes: what an operation gives as the only one that a process ever runs is what it gives after any
// history, and while others run.  (Within one process, state that is left over from an earlier case spoils the
// reference as well.)

type FreshStep struct {
	In int
	Op int
	C4 bool
}

type FreshCase struct {
	Inputs     []Input
	Once       bool // each file is decoded once only, and all steps have the same middle C setting
	Concurrent bool // the steps run at the same time, with the same middle C setting
	Steps      []FreshStep
}

func (c FreshCase) String() string {
	h := HistoryCase{Inputs: c.Inputs}
	s := strings.TrimPrefix(h.String(), "C4:false")
	for _, x := range c.Steps {
		s += fmt.Sprintf(" %s(%d,C4:%v)", operationNames[x.Op], x.In, x.C4)
	}
	return fmt.Sprintf("decoded once:%v concurrent:%v%s", c.Once, c.Concurrent, s)
}

// child is what a fresh process does: it reads a case and writes the results.
func child() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(5)
	}
	var results any
	switch os.Getenv("VP_CHILD") {
	case "history":
		results = childHistory(b)
	case "makers":
		results = childMakers(b)
	}
	out, _ := json.Marshal(results)
	fmt.Printf("\nRESULTS %s\n", out)
	os.Exit(0)
}

// inChild runs a case in a process of its own.
func inChild(kind string, c any) ([]byte, error) {
	in, _ := json.Marshal(c)
	exe, err := os.Executable()
	if err != nil {
		return nil, fmt.Errorf("HARNESS: %v", err)
	}
	var stdout, stderr bytes.Buffer
	cmd := exec.Command(exe)
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "VP_REPLAY=") {
			cmd.Env = append(cmd.Env, v)
		}
	}
	cmd.Env = append(cmd.Env, "VP_CHILD="+kind)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &stdout, &stderr
	if err := cmd.Start(); err != nil {
		return nil, fmt.Errorf("HARNESS: %v", err)
	}
	timer := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	if err != nil {
		return nil, fmt.Errorf("the process ended with %v\n%s", err, head(stderr.String()+lastLines(stdout.String(), 40), 60))
	}
	_, out, ok := strings.Cut(stdout.String(), "\nRESULTS ")
	if !ok {
		return nil, fmt.Errorf("HARNESS: no results from the process: %s", head(stderr.String(), 20))
	}
	return []byte(out), nil
}

func lastLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	return strings.Join(lines[max(0, len(lines)-n):], "\n")
}

func childHistory(b []byte) any {
	c := FreshCase{}
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	results := make([]string, len(c.Steps))
	decoded := map[int]*midi.SMF{}
	once := func(k *Tools, s FreshStep) string {
		smf, ok := decoded[s.In]
		if !ok {
			if x, err := decode(c.Inputs[s.In].B); err == nil {
				smf = x
			}
			decoded[s.In] = smf
		}
		if smf == nil {
			return "error"
		}
		return performOn(k, smf, s.Op)
	}
	switch {
	case c.Concurrent:
		setMiddleC(c.Steps[0].C4)
		if c.Once {
			for _, s := range c.Steps {
				if x := c.Inputs[s.In]; x.Source == "midi" && decoded[s.In] == nil {
					if smf, err := decode(x.B); err == nil {
						decoded[s.In] = smf
					}
				}
			}
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for i, s := range c.Steps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := newTools()
				<-start
				if smf := decoded[s.In]; smf != nil {
					results[i] = performOn(k, smf, s.Op)
				} else {
					results[i] = perform(k, c.Inputs[s.In], s.Op)
				}
			}()
		}
		close(start)
		wg.Wait()
	default:
		k := newTools()
		for i, s := range c.Steps {
			setMiddleC(s.C4)
			if c.Once && c.Inputs[s.In].Source == "midi" {
				results[i] = once(k, s)
			} else {
				results[i] = perform(k, c.Inputs[s.In], s.Op)
			}
		}
	}
	return results
}

func fresh(c FreshCase) ([]string, error) {
	out, err := inChild("history", c)
	if err != nil {
		return nil, err
	}
	results := []string{}
	if err := json.Unmarshal(out, &results); err != nil || len(results) != len(c.Steps) {
		return nil, fmt.Errorf("HARNESS: no results from the process: %v", err)
	}
	return results, nil
}

func checkFresh(c FreshCase, o *Obs) error {
	o.Nontrivial(len(c.Steps) > 2)
	o.Label(c.Concurrent, "concurrent in a fresh process")
	o.Label(!c.Concurrent, "history in a fresh process")
	n := 1
	if c.Concurrent && os.Getenv("VP_REPLAY") != "" { // the schedule is not part of the case
		n = 50
	}
	want := map[FreshStep]string{}
	for _, s := range c.Steps {
		if _, ok := want[s]; !ok {
			r, err := fresh(FreshCase{Inputs: []Input{c.Inputs[s.In]}, Once: c.Once, Steps: []FreshStep{{0, s.Op, s.C4}}})
			if err != nil {
				return fmt.Errorf("%s(input %d) alone: %v", operationNames[s.Op], s.In, err)
			}
			if strings.HasPrefix(r[0], "panic:") {
				return fmt.Errorf("%s(input %d) alone: %v", operationNames[s.Op], s.In, r[0])
			}
			want[s] = r[0]
		}
	}
	how := "as step %d of the history"
	if c.Concurrent {
		how = "as number %d of several at the same time"
	}
	for range n {
		got, err := fresh(c)
		if err != nil {
			return err
		}
		for i, s := range c.Steps {
			if got[i] != want[s] {
				return fmt.Errorf("%s(input %d) "+how+" gives a different result:\n%s\n---- alone:\n%s", operationNames[s.Op], s.In, i, clip(got[i], 1500), clip(want[s], 1500))
			}
		}
	}
	return nil
}

func genFresh(t *rapid.T) FreshCase {
	c := FreshCase{Once: rapid.Bool().Draw(t, "once"), Concurrent: chance(t, "concurrent", 2, 5)}
	n := rapid.IntRange(1, 3).Draw(t, "inputs")
	for i := 0; i < n; i++ {
		c.Inputs = append(c.Inputs, genInput(t))
	}
	setting := rapid.Bool().Draw(t, "C4")
	n = rapid.IntRange(2, 6).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := FreshStep{In: rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "in"), Op: rapid.IntRange(0, len(operationNames)-1).Draw(t, "op"), C4: setting}
		if c.Inputs[s.In].Source != "midi" {
			s.Op = 0
		}
		if !c.Once && !c.Concurrent {
			s.C4 = rapid.Bool().Draw(t, "step-C4")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func init() {
	property("C12", "fresh", 1200, 40000, genFresh, checkFresh)
}
