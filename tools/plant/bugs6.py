BUGS=[
dict(id='b84-tsv-bank', property='C17', needs='a table of a file with a program change in bank 8192 or above',
 breaks='the table shows another bank than the one selected',
 edits=[('commands/tsv.go','fmt.Sprintf("%v, %v", e.Bank, e.Program)','fmt.Sprintf("%v, %v", e.Bank&0x1fff, e.Program)')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xb0, 0, 64]), (0, [0xb0, 32, 1]), (0, [0xc0, 5]), EOT]))
code, out, err = run('tsv', f)
assert code == 0 and '8193, 5' in out, out
'''),
dict(id='b85-tsv-alias', property='C16', needs='a table of a file with a key signature between a NoteOn and its NoteOff',
 breaks='the table names a NoteOff by the key in force when the note ends, not by its NoteOn',
 edits=[('commands/tsv.go','''	if e, ok := v.(midievent.NoteOff); ok {
		channel = fmt.Sprintf("%v", e.Channel)
		note = fmt.Sprintf("%v", e.Note.Value)
		velocity = fmt.Sprintf("%v", e.Velocity)
		details = fmt.Sprintf("%v", e.Note.Name)''','''	if e, ok := v.(midievent.NoteOff); ok {
		channel = fmt.Sprintf("%v", e.Channel)
		note = fmt.Sprintf("%v", e.Note.Value)
		velocity = fmt.Sprintf("%v", e.Velocity)
		details = fmt.Sprintf("%v", e.Note.Alias)''')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 61, 64]), (0, meta(0x59, [0xfd, 0])), (10, [0x80, 61, 64]), EOT]))
code, out, err = run('tsv', f)
l = [x.split() for x in out.split(chr(10))]
assert code == 0 and l[1][-1] == l[3][-1], out
'''),
dict(id='b86-controller-id', property='C26', needs='a controller event for controller 80',
 breaks='controller 80 is decoded as controller 81',
 edits=[('midi/lib/controller.go','Controller{80, "General','Controller{81, "General')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xb0, 80, 1]), EOT]))
code, out, err = run('tsv', f)
assert code == 0 and '80:' in out, out
'''),
dict(id='b88-lazy-names', property='C12', needs='goroutines that decode a note for the first time in the process, at the same time',
 breaks='the first concurrent decodes race on a table that is made on first use',
 edits=[('midi/context/context.go','func (ctx *Context) FormatNote(n byte) string {\n	scale := Sharps\n','var names map[byte]string\n\nfunc (ctx *Context) FormatNote(n byte) string {\n\tif names == nil {\n\t\ttable := map[byte]string{}\n\t\tfor k, v := range Sharps {\n\t\t\ttable[k] = v\n\t\t}\n\t\tnames = table\n\t}\n	scale := names\n')],
 demo='''
write('a.mid', smf(0, 480, [(0, [0x90, 61, 64]), (10, [0x80, 61, 64]), EOT]))
os.environ['GOFLAGS'] = '-mod=mod -race'
os.environ['CGO_ENABLED'] = '1'
code, out, err = gorun("""package main
import ("os"; "sync"; "bytes"
midifile "github.com/transcriptaze/midiasm/encoding/midi")
func main() {
  b, _ := os.ReadFile("a.mid")
  var w sync.WaitGroup
  start := make(chan bool)
  for i := 0; i < 32; i++ {
    w.Add(1)
    go func() {
      defer w.Done()
      <-start
      midifile.NewDecoder().Decode(bytes.NewReader(b))
    }()
  }
  close(start)
  w.Wait()
}""")
assert code == 0, err
'''),
dict(id='b89-chunk-copy', property='C08', needs='a track of tens of thousands of lines',
 breaks='the text assembler copies the track for every line: memory and time grow with the square of the source',
 edits=[('ops/assemble/text.go','			chunk = append(chunk, line)\n','			chunk = append(clone(chunk), line)\n')],
 demo='''
code, out, err = gorun("""package main
import ("fmt"; "runtime"; "strings"
"github.com/transcriptaze/midiasm/ops/assemble")
func used(n int) uint64 {
  s := "MThd length:6, format:1, tracks:1, metrical time:480 ppqn"+string(rune(10))+"MTrk 0 length:0"+string(rune(10)) + strings.Repeat("delta:1 EndOfTrack"+string(rune(10)), n)
  var m0, m1 runtime.MemStats
  runtime.ReadMemStats(&m0)
  if _, err := assemble.NewTextAssembler().Assemble(strings.NewReader(s)); err != nil { panic(err) }
  runtime.ReadMemStats(&m1)
  return m1.TotalAlloc-m0.TotalAlloc
}
func main() { fmt.Println(used(2500), used(40000)) }""")
a, b = out.split()
assert code == 0 and int(b) < 32 * int(a), out
'''),
]
