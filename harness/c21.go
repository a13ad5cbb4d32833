package harness

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"
	"pgregory.net/rapid"
)

// C21: the command does what the library does, in one process per file: same result, whole, where it was asked for, and a
// failure is never taken for success.

type CLICase struct {
	Cmd     string // "" for the default command
	Input   Input
	Name    string // of the input file
	Out     string // "none" (for transpose), "stdout", "file", "existing", "same", "default", "full", "full-stdout", "no-folder"
	C4      bool
	Verbose bool
	Debug   bool
	JSON    bool
	N       int // semitones
	Missing bool
	// for disassemble: a file of templates, "" for none
	Templates string
	Unusual   string // "no-argument", "folder" (as the input), "no-templates" (the file of templates is missing)
	Form      int    // how options are written: --out FILE, --out=FILE, -out FILE, -out=FILE
	Relative  int    // 1: paths relative to the working directory, 2: with ./ in front
	// for tsv
	Tabular   bool
	Delimiter string
}

func (c CLICase) String() string {
	s := fmt.Sprintf("%+v", c.args("IN", "OUT"))
	src := fmt.Sprintf("% X", c.Input.B)
	if c.Input.Source != "midi" {
		src = string(c.Input.B)
	}
	return fmt.Sprintf("midiasm %s (file %q, output to %s, missing:%v)\n%s %s: %s", s, c.Name, c.Out, c.Missing, c.Input.Source, c.Input.Note, src)
}

func (c CLICase) args(in, out string) []string {
	list := []string{}
	option := func(name, value string) {
		switch c.Form {
		case 1:
			list = append(list, "--"+name+"="+value)
		case 2:
			list = append(list, "-"+name, value)
		case 3:
			list = append(list, "-"+name+"="+value)
		default:
			list = append(list, "--"+name, value)
		}
	}
	if c.Cmd != "" {
		list = append(list, c.Cmd)
	}
	if c.C4 {
		list = append(list, "--C4")
	}
	if c.Debug {
		list = append(list, "--debug")
	}
	if out != "" {
		option("out", out)
	}
	if c.Verbose {
		list = append(list, "--verbose")
	}
	switch c.Cmd {
	case "notes":
		if c.JSON {
			list = append(list, "--json")
		}
		if c.N != 0 {
			option("transpose", fmt.Sprint(c.N))
		}
	case "transpose":
		if c.N != 0 || c.Form == 0 { // the default
			option("semitones", fmt.Sprint(c.N))
		}
	case "tsv":
		if c.Tabular {
			list = append(list, "--tabular")
		}
		if c.Delimiter != "" {
			option("delimiter", c.Delimiter)
		}
	case "", "disassemble":
		if c.Templates != "" {
			option("templates", filepath.Join(filepath.Dir(in), templateFile))
		}
	}
	if c.Unusual == "no-argument" {
		return list
	}
	return append(list, in)
}

const templateFile = "my templates.json"

// library performs the operation in this process.
func (c CLICase) library() (out []byte, warnings []string, err error) {
	if c.Cmd == "assemble" {
		out, err = assembler(strings.HasSuffix(c.Name, ".json")).Assemble(bytes.NewReader(c.Input.B))
		return
	}
	smf, err := decode(c.Input.B)
	if err != nil {
		return nil, nil, err
	}
	for _, e := range smf.Validate() {
		warnings = append(warnings, fmt.Sprintf("%v", e))
	}
	var b bytes.Buffer
	switch c.Cmd {
	case "", "disassemble":
		if c.Templates != "" {
			d, err := disassemble.NewDisassemble()
			if err == nil {
				err = d.LoadTemplates(strings.NewReader(c.Templates))
			}
			if err == nil {
				err = d.Print(smf, "document", &b)
			}
			return b.Bytes(), warnings, err
		}
		s, err := disassembleText(smf)
		return []byte(s), warnings, err
	case "export":
		out, err := exportJSON(smf)
		return out, warnings, err
	case "notes":
		p := notes.Notes{Writer: &b, JSON: c.JSON, Transpose: c.N}
		err = p.Execute(smf)
	case "click":
		p := click.ClickTrack{Writer: &b}
		err = p.Execute(smf)
	case "transpose":
		p := transpose.Transpose{}
		out, err := p.Execute(smf, c.N)
		return out, warnings, err
	case "tsv":
		dir := scratchDir()
		defer os.RemoveAll(dir)
		in := filepath.Join(dir, "in")
		os.WriteFile(in, c.Input.B, 0600)
		if c.Out == "stdout" || c.Out == "full-stdout" {
			r := runCommand("tsv", in)
			return []byte(r.Out), warnings, r.Error
		}
		options := []string{"--out", filepath.Join(dir, "out")}
		if c.Tabular {
			options = append(options, "--tabular")
		}
		if c.Delimiter != "" {
			options = append(options, "--delimiter", c.Delimiter)
		}
		r := runCommand("tsv", append(options, in)...)
		out, _ := os.ReadFile(filepath.Join(dir, "out"))
		return out, warnings, r.Error
	}
	return b.Bytes(), warnings, err
}

func checkCLI(c CLICase, o *Obs) error {
	cli := os.Getenv("VP_CLI")
	if cli == "" {
		return fmt.Errorf("HARNESS: VP_CLI is not set")
	}
	setMiddleC(c.C4)
	defer setMiddleC(false)
	want, warnings, failure := c.library()
	if c.Unusual != "" {
		failure = fmt.Errorf("no input file, or no templates")
	} else if c.Cmd == "transpose" && c.Out == "none" && failure == nil {
		failure = fmt.Errorf("no output file")
	}
	o.Nontrivial(failure == nil && len(want) > 0)
	o.Label(failure != nil, "operation fails")
	o.Label(len(warnings) > 0, "validation errors")
	o.Label(true, "command "+c.Cmd)
	o.Label(true, "output to "+c.Out)
	o.Label(c.Templates != "" && failure == nil, "templates")
	o.Label(c.Unusual != "", c.Unusual)
	o.Label(c.Relative > 0 && failure == nil, "relative path")

	dir := scratchDir()
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, c.Name)
	os.MkdirAll(filepath.Dir(in), 0700)
	if c.Templates != "" && c.Unusual != "no-templates" {
		if err := os.WriteFile(filepath.Join(filepath.Dir(in), templateFile), []byte(c.Templates), 0600); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
	}
	if c.Unusual == "folder" {
		if err := os.Mkdir(in, 0700); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
	} else if !c.Missing {
		if err := os.WriteFile(in, c.Input.B, 0600); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
	}
	out, dest := "", ""
	switch c.Out {
	case "file":
		dest = "result.out"
	case "existing":
		dest = "result.out"
		if err := os.WriteFile(filepath.Join(dir, dest), bytes.Repeat([]byte("old contents\n"), 20000), 0600); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
	case "same":
		dest = c.Name
	case "default":
		dest = strings.TrimSuffix(c.Name, filepath.Ext(c.Name)) + ".midi"
	case "full":
		out = "/dev/full"
	case "folder":
		out = filepath.Join(dir, "a folder")
		if err := os.Mkdir(out, 0700); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
	case "no-folder":
		out = filepath.Join(dir, "no", "such", "folder")
	}
	if dest != "" && c.Out != "default" {
		out = filepath.Join(dir, dest)
	}
	before := tree(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	relative := func(path string) string {
		if c.Relative > 0 && strings.HasPrefix(path, dir+"/") {
			path, _ = filepath.Rel(dir, path)
			if c.Relative == 2 {
				path = "./" + path
			}
		}
		return path
	}
	cmd := exec.CommandContext(ctx, cli, c.args(relative(in), relative(out))...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if c.Out == "full-stdout" {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		defer full.Close()
		cmd.Stdout = full
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("no result after 50 s")
	}
	if err != nil && cmd.ProcessState == nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	code := cmd.ProcessState.ExitCode()
	after := tree(dir)
	text := stdout.String() + stderr.String()
	if strings.Contains(stderr.String(), "goroutine ") && code != 0 && code != 1 {
		return fmt.Errorf("crash: exit code %d\n%s", code, clip(stderr.String(), 2000))
	}

	// what has to fail, and to say so
	fails := failure != nil || c.Missing || c.Out == "no-folder" || c.Out == "folder" || (c.Out == "full" || c.Out == "full-stdout") && len(bytes.TrimSpace(want)) > 0
	if !fails && strings.HasPrefix(c.Out, "full") { // hardly any output, or none
		return nil
	}
	if fails && code == 0 {
		return fmt.Errorf("exit code 0 (error: %v, output to %s)\n%s", failure, c.Out, clip(text, 1000))
	}
	if fails && c.Out != "full-stdout" && !strings.Contains(text, "ERROR") {
		return fmt.Errorf("no error message: %q", clip(text, 1000))
	}
	if !fails && code != 0 {
		return fmt.Errorf("exit code %d\n%s", code, clip(text, 1000))
	}

	// the files
	for f, s := range before {
		if f != dest && after[f] != s {
			return fmt.Errorf("file %s was changed", f)
		}
	}
	for f := range after {
		if _, ok := before[f]; !ok && f != dest {
			return fmt.Errorf("unexpected file %s", f)
		}
	}
	if fails {
		_, existed := before[dest]
		if got, ok := after[dest]; dest != "" && (c.Missing || c.Unusual == "folder" || c.Unusual == "no-argument" || c.decodingFails()) && (ok != existed || got != before[dest]) {
			return fmt.Errorf("the output file was written to in spite of the error")
		}
		return nil
	}

	// the result
	switch {
	case dest != "":
		got, ok := after[dest]
		if !ok {
			return fmt.Errorf("no output file")
		}
		if got != string(want) {
			return fmt.Errorf("output file differs:\n%s\n---- expected\n%s", clip(show(got), 2000), clip(show(string(want)), 2000))
		}
		if c.Cmd != "click" && stdout.Len() > 0 {
			return fmt.Errorf("unexpected output %q", clip(stdout.String(), 500))
		}
	case c.Out == "stdout" && c.Cmd == "click":
		if strings.Join(filled(stdout.String()), "\n") != strings.Join(filled(string(want)), "\n") {
			return fmt.Errorf("output differs:\n%s\n---- expected\n%s", clip(stdout.String(), 2000), clip(string(want), 2000))
		}
	case c.Out == "stdout" && c.Cmd != "transpose":
		if stdout.String() != string(want) {
			return fmt.Errorf("output differs:\n%s\n---- expected\n%s", clip(stdout.String(), 2000), clip(string(want), 2000))
		}
	}

	// the warnings
	for _, s := range warnings {
		if !strings.Contains(stderr.String(), s) {
			return fmt.Errorf("validation error not reported: %s\n%s", s, clip(stderr.String(), 1000))
		}
	}
	if n := strings.Count(stderr.String(), " ** "); n < len(warnings) || len(warnings) == 0 && strings.Contains(stderr.String(), "validation error") {
		return fmt.Errorf("expected %d validation errors\n%s", len(warnings), clip(stderr.String(), 1000))
	}
	return nil
}

func (c CLICase) decodingFails() bool {
	if c.Cmd == "assemble" {
		return true
	}
	_, err := decode(c.Input.B)
	return err != nil
}

func show(s string) string {
	if strings.HasPrefix(s, "MThd") {
		return fmt.Sprintf("% X", s)
	}
	return s
}

func genCLI(t *rapid.T) CLICase {
	c := CLICase{
		Cmd:     pick(t, "cmd", "", "disassemble", "assemble", "notes", "click", "export", "transpose", "tsv", "assemble", "transpose"),
		C4:      chance(t, "C4", 1, 3),
		Verbose: chance(t, "verbose", 1, 6),
		Debug:   chance(t, "debug", 1, 6),
		JSON:    rapid.Bool().Draw(t, "json"),
		N:       pick(t, "n", 0, 1, -1, 5, 12, -12, 130),
		Missing: chance(t, "missing", 1, 30),
		Form:    rapid.IntRange(0, 3).Draw(t, "form"),
	}
	if chance(t, "relative?", 1, 3) {
		c.Relative = rapid.IntRange(1, 2).Draw(t, "relative")
	}
	if c.Cmd == "tsv" {
		c.Tabular = chance(t, "tabular", 1, 3)
		c.Delimiter = pick(t, "delimiter", "", "", ";", "|", ",", "\\t", "é")
	}
	for {
		c.Input = genInput(t)
		if (c.Input.Source == "midi") == (c.Cmd != "assemble") {
			break
		}
		if c.Cmd == "assemble" && chance(t, "not-a-source", 1, 10) {
			break
		}
		if c.Cmd != "assemble" && chance(t, "not-midi", 1, 40) {
			break
		}
	}
	c.Out = pick(t, "out", "file", "existing", "stdout", "stdout", "full", "full-stdout", "no-folder", "file", "existing", "file", "folder")
	c.Name = pick(t, "name", "in.mid", "in.midi", "in", "a b.mid", "é♯.mid", "sub/in.mid", "x.json.mid")
	switch c.Cmd {
	case "assemble":
		if c.Out == "stdout" || c.Out == "full-stdout" {
			c.Out = "default"
		}
		if c.Input.Source == "json" {
			c.Name = pick(t, "json-name", "in.json", "a b.json", "sub/in.json", "x.txt.json")
		} else {
			c.Name = pick(t, "text-name", "in.txt", "in", "a b.asm", "sub/in.txt", "x.json.txt", "sub.d/in")
		}
	case "transpose":
		if c.Out == "stdout" || c.Out == "full-stdout" {
			c.Out = pick(t, "transpose-out", "same", "same", "none")
		}
	default:
		if c.Out == "existing" && chance(t, "same", 1, 4) {
			c.Out = "same"
		}
	}
	if (c.Cmd == "" || c.Cmd == "disassemble") && chance(t, "templates", 1, 3) {
		c.Templates = pick(t, "template", `{"templates":{"noteon":"NOTE {{.Channel}} {{pad 6 .Note.Name}}|","endoftrack":"END"}}`, `{"templates":{"text":"{{ellipsize .Text 4}}","tempo":"T{{.Tempo}}","controller":"C{{.Value}}"}}`,
			`{"templates":{}}`, `{}`, `{"templates":{"noteon":"{{.Nothing}}"}}`, `{"templates":{"noteon":"{{"}}`, `not JSON`, `{"templates":{"noteon":"{{pad 6"}}`, ` `)
	}
	if chance(t, "unusual", 1, 40) {
		c.Missing = false
		c.Unusual = pick(t, "unusual-kind", "no-argument", "folder")
		if c.Templates != "" {
			c.Unusual = "no-templates"
		}
		if c.Out == "same" || c.Out == "default" {
			c.Out = "file"
		}
	}
	return c
}

// InfoCase is a command that only displays something.
type InfoCase struct{ Args []string }

func (c InfoCase) String() string { return fmt.Sprintf("midiasm %q", c.Args) }

func checkInfo(c InfoCase, o *Obs) error {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	for _, f := range []string{"disassemble", "in.mid", "version"} {
		os.WriteFile(filepath.Join(dir, f), []byte("contents"), 0600)
	}
	before := tree(dir)
	o.Nontrivial(true)
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VP_CLI"), c.Args...)
	cmd.Dir = dir
	var stdout bytes.Buffer
	cmd.Stdout = &stdout
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(stdout.String(), 500))
	}
	if strings.TrimSpace(stdout.String()) == "" {
		return fmt.Errorf("nothing is displayed")
	}
	if fmt.Sprint(tree(dir)) != fmt.Sprint(before) {
		return fmt.Errorf("a file was changed")
	}
	return nil
}

func init() {
	enumeration("C21", "info", func(_ string, yield func(InfoCase)) {
		for _, c := range []string{"", "disassemble", "assemble", "notes", "click", "export", "transpose", "tsv", "humanise", "nonsense"} {
			args := []string{"help"}
			if c != "" {
				args = append(args, c)
			}
			yield(InfoCase{args})
		}
		yield(InfoCase{[]string{"version"}})
	}, checkInfo)
	property("C21", "cli", 16000, 300000, genCLI, checkCLI)
}
