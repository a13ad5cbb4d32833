package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/transcriptaze/midiasm/midi/lib"
	"pgregory.net/rapid"
)

// C27: manufacturers loaded from a file are recognised, each file adding to what there was before.  The table is global,
// so that each case runs in a process of its own.

type MakerEntry struct {
	ID     []int
	Region string
	Name   string
}

type MakersCase struct {
	Files   [][]MakerEntry
	Damage  []string // per file: "" or what is done to the JSON
	Queries [][]byte
}

func (c MakersCase) String() string {
	s := ""
	for i := range c.Files {
		s += fmt.Sprintf("file %d (%s): %s\n", i, c.Damage[i], c.document(i))
	}
	return s + fmt.Sprintf("queries: % X", c.Queries)
}

func (c MakersCase) document(i int) []byte {
	list := []any{}
	for _, e := range c.Files[i] {
		list = append(list, obj{"id": e.ID, "region": e.Region, "name": e.Name})
	}
	b, _ := json.Marshal(obj{"manufacturers": list})
	switch c.Damage[i] {
	case "truncated":
		return b[:len(b)-1]
	case "not a list":
		return []byte(`{"manufacturers": "x"}`)
	case "text ID":
		return bytes.Replace(b, []byte(`"id":[`), []byte(`"id":["x",`), 1)
	case "other fields":
		return bytes.Replace(b, []byte(`{"manufacturers"`), []byte(`{"version": 2, "manufacturers"`), 1)
	case "indented":
		var out bytes.Buffer
		json.Indent(&out, b, "", "  ")
		return out.Bytes()
	}
	return b
}

// valid says whether file i is well formed.
func (c MakersCase) valid(i int) bool {
	switch c.Damage[i] {
	case "truncated", "not a list":
		return false
	case "text ID":
		if len(c.Files[i]) > 0 {
			return false
		}
	}
	for _, e := range c.Files[i] {
		if len(e.ID) != 1 && len(e.ID) != 3 || strings.Trim(e.Name, " ") == "" {
			return false
		}
		for _, b := range e.ID {
			if b < 0 || b > 255 {
				return false
			}
		}
	}
	return true
}

// MakerFound is what the process found out about an ID.
type MakerFound struct {
	Name, Region       string // SysEx message
	SeqName, SeqRegion string // sequencer specific event
	Assembled          []byte // the listing of a file with both, assembled
	AssembleError      string
	Exported           string
}

type MakersResult struct {
	Error string
	Found []MakerFound
}

func makersFile(id []byte) []byte {
	b, _ := encode(File{Format: 0, Division: 96, Tracks: [][]Ev{{
		{Kind: "SysExMessage", M: id, D: []byte{1, 2}, End: true},
		{Kind: "SequencerSpecificEvent", M: id, D: []byte{3, 4}},
		{Kind: "EndOfTrack"},
	}}}, plain())
	return b
}

func childMakers(in []byte) any {
	c := MakersCase{}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	results := []MakersResult{}
	for i := range c.Files {
		r := MakersResult{}
		list, err := lib.LoadManufacturers(bytes.NewReader(c.document(i)))
		if err != nil {
			r.Error = err.Error()
		} else {
			lib.AddManufacturers(list)
		}
		for _, id := range c.Queries {
			m := MakerFound{}
			smf, err := decode(makersFile(id))
			if err != nil {
				panic(err)
			}
			_, infos, err := adapt(smf)
			if err != nil {
				panic(err)
			}
			m.Name, m.Region = infos[0][0].Name, infos[0][0].Region
			m.SeqName, m.SeqRegion = infos[0][1].Name, infos[0][1].Region
			if s, err := disassembleText(smf); err != nil {
				m.AssembleError = err.Error()
			} else if b, err := assembler(false).Assemble(strings.NewReader(s)); err != nil {
				m.AssembleError = err.Error()
			} else {
				m.Assembled = b
			}
			var b bytes.Buffer
			if err := newTools().exp.Export(smf, &b); err != nil {
				panic(err)
			}
			m.Exported = b.String()
			r.Found = append(r.Found, m)
		}
		results = append(results, r)
	}
	return results
}

func checkMakers(c MakersCase, o *Obs) error {
	out, err := inChild("makers", c)
	if err != nil {
		return err
	}
	results := []MakersResult{}
	if err := json.Unmarshal(out, &results); err != nil || len(results) != len(c.Files) {
		return fmt.Errorf("HARNESS: no results: %v", err)
	}
	table := map[string]maker{}
	for _, m := range makers {
		table[string(m.ID)] = m
	}
	for i, r := range results {
		if (r.Error == "") != c.valid(i) {
			return fmt.Errorf("file %d: valid:%v, error:%q", i, c.valid(i), r.Error)
		}
		o.Label(r.Error != "", "rejected file")
		if r.Error == "" {
			for _, e := range c.Files[i] {
				id := []byte{}
				for _, b := range e.ID {
					id = append(id, byte(b))
				}
				_, known := table[string(id)]
				o.Label(known, "replaces a manufacturer")
				o.Label(!known, "adds a manufacturer")
				o.Nontrivial(true)
				table[string(id)] = maker{id, strings.Trim(e.Region, " "), strings.Trim(e.Name, " ")}
			}
		}
		names := map[string]int{}
		for _, m := range table {
			names[m.Name]++
		}
		for j, id := range c.Queries {
			got := r.Found[j]
			m, known := table[string(id)]
			if !known {
				m = maker{id, "<unknown>", "<unknown>"}
			}
			if got.Name != m.Name || got.Region != m.Region || got.SeqName != m.Name || got.SeqRegion != m.Region {
				return fmt.Errorf("after file %d: manufacturer % X is %q (%q) in a SysEx message and %q (%q) in a sequencer specific event, expected %q (%q)", i, id, got.Name, got.Region, got.SeqName, got.SeqRegion, m.Name, m.Region)
			}
			var doc struct {
				Tracks []struct {
					Events []struct {
						Event struct {
							Manufacturer struct {
								ID           []int
								Name, Region string
							}
						}
					}
				}
			}
			if err := json.Unmarshal([]byte(got.Exported), &doc); err != nil {
				return fmt.Errorf("invalid export: %v", err)
			}
			for k := 0; k < 2; k++ {
				if x := doc.Tracks[0].Events[k].Event.Manufacturer; x.Name != m.Name || x.Region != m.Region || fmt.Sprint(x.ID) != fmt.Sprint(id) {
					return fmt.Errorf("after file %d: manufacturer % X is exported as %+v, expected %q (%q)", i, id, x, m.Name, m.Region)
				}
			}
			if known && names[m.Name] == 1 {
				if got.AssembleError != "" {
					return fmt.Errorf("after file %d: the listing of a file with manufacturer % X is not assembled: %v", i, id, got.AssembleError)
				}
				if !bytes.Equal(got.Assembled, makersFile(id)) {
					return fmt.Errorf("after file %d: the listing of a file with manufacturer % X is assembled as % X", i, id, got.Assembled)
				}
			}
		}
	}
	return nil
}

func genMakers(t *rapid.T) MakersCase {
	c := MakersCase{}
	ids := [][]byte{}
	for n := rapid.IntRange(1, 4).Draw(t, "ids"); n > 0; n-- {
		ids = append(ids, genManufacturer(t))
	}
	if rapid.Bool().Draw(t, "look-alike") { // a one byte ID and three byte IDs with the same byte
		x := byte(rapid.IntRange(1, 127).Draw(t, "x"))
		ids = append(ids, []byte{x}, []byte{0, 0, x}, []byte{0, x, 0})
	}
	serial := 0
	for n := rapid.IntRange(1, 3).Draw(t, "files"); n > 0; n-- {
		list, seen := []MakerEntry{}, map[string]bool{}
		for k := rapid.IntRange(0, 4).Draw(t, "entries"); k > 0; k-- {
			id := pick(t, "id", ids...)
			if seen[string(id)] {
				continue
			}
			seen[string(id)] = true
			serial++
			e := MakerEntry{Region: pick(t, "region", "European", "Japanese", "Elsewhere", "", " Asian ", "Süd")}
			e.Name = pick(t, "name", "Acme", "Müller & Co.", "New Company (NC)", "360 x", " Trimmed ", "Text", "SysExMessage", "x-y/z") + fmt.Sprint(serial)
			switch rapid.IntRange(0, 7).Draw(t, "kin") { // a name that is nearly that of another manufacturer
			case 0:
				m := pick(t, "like", makers...)
				r := []rune(m.Name)
				e.Name = pick(t, "variant", string(r[:len(r)-1]), string(r[1:]), m.Name+"x", "x"+m.Name, strings.ToLower(m.Name), strings.ToUpper(m.Name), m.Name+" "+m.Name, m.Name, strings.ReplaceAll(m.Name, " ", ""))
			case 1:
				e.Name = pick(t, "shorter", "A", "Ac", "Acm", "Acme", "Acme 1", "acme", "ACME", "Acme Acme", "<unknown", "unknown")
			}
			for _, b := range id {
				e.ID = append(e.ID, int(b))
			}
			if chance(t, "invalid", 1, 12) {
				switch rapid.IntRange(0, 4).Draw(t, "fault") {
				case 0:
					e.Name = pick(t, "empty", "", " ", "   ")
				case 1:
					e.ID = []int{}
				case 2:
					e.ID = append(e.ID, 1)
				case 3:
					e.ID[0] = pick(t, "not-a-byte", 256, 257, 65536, -1)
				default:
					e.ID = nil
				}
			}
			list = append(list, e)
		}
		c.Files = append(c.Files, list)
		c.Damage = append(c.Damage, pick(t, "damage", "", "", "", "", "indented", "other fields", "truncated", "not a list", "text ID"))
	}
	c.Queries = append(ids, genManufacturer(t))
	return c
}

func init() {
	property("C27", "files", 2400, 60000, genMakers, checkMakers)
}
