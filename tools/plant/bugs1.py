BUGS=[
dict(id='b01-tick32', property='C01', needs='a track whose absolute tick passes 2^32 (17 or more events with deltas near the maximum)',
 breaks='absolute ticks wrap round at 2^32',
 edits=[('midi/MTrk.go','tick += uint64(e.Delta())','tick = uint64(uint32(tick) + e.Delta())')],
 demo='''
f = write('a.mid', smf(0, 480, [(0x0fffffff, [0x90, 60, 1]) for i in range(18)] + [EOT]))
code, out, err = run(f)
assert code == 0
assert 'tick:%d' % (18 * 0x0fffffff) in out, out
'''),
dict(id='b02-sysex-third-packet', property='C01', needs='a SysEx message of three or more packets',
 breaks='the packet after the first continuation is taken for an escape message',
 edits=[('midi/MTrk.go',"else if status == 0xf7 && ctx.Casio && bytes[len(bytes)-1] == 0xf7 {","else if status == 0xf7 && ctx.Casio {")],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xf0, 3, 0x43, 1, 2]), (1, [0xf7, 2, 3, 4]), (1, [0xf7, 2, 5, 6]), (1, [0xf7, 2, 7, 0xf7]), EOT]))
code, out, err = run(f)
assert code == 0
assert out.count('SysExContinuation') == 3 and 'SysExEscape' not in out, out
'''),
dict(id='b03-running-across-meta', property='C02', needs='two NoteOns with the same status with only meta events between them',
 breaks='the encoder uses running status across a meta event, which the specification forbids',
 edits=[('encoding/midi/encoder.go','		last = chunk\n','		if chunk.event[0] != 0xff {\n			last = chunk\n		}\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x93, 60, 1]), (0, meta(1, b'x')), (0, [0x93, 61, 1]), EOT]))
code, out, err = run('transpose', '--semitones', '0', '--out', T + '/b.mid', f)
assert code == 0
b = read('b.mid')
assert bytes([0x93, 61, 1]) in b, b
'''),
dict(id='b04-running-kind-only', property='C02', needs='a running NoteOff/NoteOn whose predecessor is on another channel',
 breaks='the encoder drops the status byte where only the kind is the same, so that the note moves to another channel',
 edits=[('encoding/midi/encoder.go','if status == last.event[0] {','if status&0xf7 == last.event[0]&0xf7 {')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x92, 60, 1]), (0, [0x9a, 61, 1]), EOT]))
code, out, err = run('transpose', '--semitones', '0', '--out', T + '/b.mid', f)
assert code == 0
assert bytes([0x9a, 61, 1]) in read('b.mid'), read('b.mid')
'''),
dict(id='b05-json-ff', property='C04', needs='a data byte of FF in a SequencerSpecificEvent or SysEx escape',
 breaks='an export with a data byte of 255 is rejected by the assembler',
 edits=[('midi/lib/hex.go','	for _, b := range v {\n		if b > 0xff {','	for _, b := range v {\n		if b >= 0xff {')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xf7, 2, 0xff, 1]), EOT]))
assert run('export', '--out', T + '/a.json', f)[0] == 0
code, out, err = run('assemble', '--out', T + '/b.mid', T + '/a.json')
assert code == 0, out
assert bytes([0xf7, 2, 0xff, 1]) in read('b.mid')
'''),
dict(id='b06-vlf-prealloc', property='C07', needs='a tiny file with an event that claims a length of 256 MB',
 breaks='memory is allocated for the claimed length of an event before any of it is read',
 edits=[('midi/events/event.go','	bytes := []byte{}\n\n	for i := uint32(0)','	bytes := make([]byte, 0, N)\n\n	for i := uint32(0)')],
 demo='''
import resource
f = write('a.mid', smf(0, 480, [(0, [0xff, 1, 0xff, 0xff, 0xff, 0x7f, 1, 2])]))
code, out, err = gorun("""package main
import ("fmt"; "os"; "runtime"; "bytes"
midifile "github.com/transcriptaze/midiasm/encoding/midi")
func main() {
  b, _ := os.ReadFile("a.mid")
  var m0, m1 runtime.MemStats
  runtime.ReadMemStats(&m0)
  _, err := midifile.NewDecoder().Decode(bytes.NewReader(b))
  runtime.ReadMemStats(&m1)
  fmt.Println(err != nil, m1.TotalAlloc-m0.TotalAlloc)
}""")
ok, n = out.split()
assert ok == 'true' and int(n) < 50e6, out
'''),
dict(id='b08-shared-bank', property='C17', needs='two tracks, the second with a program change on a channel whose bank was selected in the first',
 breaks='bank selections leak from one track (and file) to the next',
 edits=[('midi/context/context.go','		ProgramBank:   make(map[uint8]uint16),','		ProgramBank:   banks,'),('midi/context/context.go','var MiddleC = lib.C3','var MiddleC = lib.C3\n\nvar banks = make(map[uint8]uint16)')],
 demo='''
f = write('a.mid', smf(1, 96, [EOT], [(0, [0xb4, 0, 3]), (0, [0xb4, 32, 5]), EOT], [(0, [0xc4, 9]), EOT]))
code, out, err = run(f)
assert code == 0
assert 'bank:0, program:9' in out, out
'''),
dict(id='b09-noteoff-key', property='C16', needs='notes on two channels that collide in the packed key, and a change of key signature between NoteOn and NoteOff',
 breaks='a NoteOff takes its name from a NoteOn of another channel',
 edits=[('midi/context/context.go','''func (ctx *Context) GetNoteOff(ch lib.Channel, n byte) string {
	key := uint16(ch)
	key <<= 8''','''func (ctx *Context) GetNoteOff(ch lib.Channel, n byte) string {
	key := uint16(ch)
	key <<= 5'''),('midi/context/context.go','''func (ctx *Context) PutNoteOn(ch lib.Channel, n byte) {
	key := uint16(ch)
	key <<= 8''','''func (ctx *Context) PutNoteOn(ch lib.Channel, n byte) {
	key := uint16(ch)
	key <<= 5''')],
 demo='''
bad = []
for a in range(0, 16, 3):
    for b in range(0, 16, 5):
        if a == b: continue
        for n in (1, 34, 61, 97):
            for m in (1, 34, 61, 97, 45, 85):
                f = write('a.mid', smf(0, 96, [(0, [0x90 | a, n, 1]), (0, [0x90 | b, m, 1]), (0, [0x80 | a, n, 0]), EOT]))
                if (a * 32 | n) == (b * 32 | m):
                    bad.append((a, b, n, m))
a, b, n, m = bad[0]
f = write('a.mid', smf(0, 96, [(0, [0x90 | a, n, 1]), (0, [0x90 | b, m, 1]), (0, [0x80 | a, n, 0]), EOT]))
code, out, err = run(f)
names = [l.split('note:')[1].split(',')[0] for l in out.split('\\n') if 'note:' in l]
assert names[0] == names[2], out
'''),
dict(id='b10-pad-truncates', property='C20', needs='a tick of ten digits or more',
 breaks='a tick that is wider than its column is cut',
 edits=[('ops/disassemble/disassemble.go','	if width < len([]rune(s)) {\n		return s\n','	if width < len([]rune(s)) {\n		return string([]rune(s)[:width])\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0x0fffffff, [0x90, 60, 1]) for i in range(5)] + [EOT]))
code, out, err = run(f)
assert code == 0
assert 'tick:%d ' % (5 * 0x0fffffff) in out, out
'''),
dict(id='b11-split-name', property='C19', needs='a MIDI file name with more than one dot',
 breaks='split files of names with several dots are written under the name up to the first dot',
 edits=[('commands/disassemble.go','base := strings.TrimSuffix(path.Base(file), path.Ext(file))','base := strings.Split(path.Base(file), ".")[0]')],
 demo='''
f = write('song.v2.mid', smf(0, 480, [EOT]))
code, out, err = run('disassemble', '--split', f)
assert code == 0
assert os.path.exists(T + '/song.v2.MThd') and os.path.exists(T + '/song.v2-0.MTrk'), os.listdir(T)
'''),
dict(id='b12-out-not-truncated', property='C21', needs='--out naming an existing file that is longer than the new contents',
 breaks='notes --out leaves the tail of what was in the file before',
 edits=[('commands/notes.go','w, err = os.Create(n.out)','w, err = os.OpenFile(n.out, os.O_RDWR|os.O_CREATE, 0660)')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 60, 1]), (480, [0x80, 60, 0]), EOT]))
write('n.txt', 'x' * 100000)
code, out, err = run('notes', '--out', T + '/n.txt', f)
assert code == 0
assert b'x' * 100 not in read('n.txt')
'''),
dict(id='b13-trailing-bytes', property='C09', needs='a file with one to seven bytes after its last chunk',
 breaks='a truncated chunk header at the end of the file is ignored',
 edits=[('encoding/midi/decoder.go','err != nil && !errors.Is(err, io.EOF) {','err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {')],
 demo='''
f = write('a.mid', smf(1, 480, [EOT]) + b'MTrk')
code, out, err = run(f)
assert code != 0, out
'''),
dict(id='b14-write-error', property='C13', needs='an output that fails after the header was written',
 breaks='the encoder reports success although a track could not be written',
 edits=[('encoding/midi/encoder.go','''EncodeMTrk(*track); err != nil {
			return err
		} else if _, err := e.w.Write(bytes); err != nil {
			return err
		}''','''EncodeMTrk(*track); err != nil {
			return err
		} else {
			e.w.Write(bytes)
		}''')],
 demo='''
write('a.mid', smf(1, 480, [EOT], [EOT]))
code, out, err = gorun("""package main
import ("fmt"; "os"; "bytes"; "errors"
midifile "github.com/transcriptaze/midiasm/encoding/midi")
type W struct { n int }
func (w *W) Write(b []byte) (int, error) { w.n += len(b); if w.n > 20 { return 0, errors.New("full") }; return len(b), nil }
func main() {
  b, _ := os.ReadFile("a.mid")
  smf, err := midifile.NewDecoder().Decode(bytes.NewReader(b))
  if err != nil { panic(err) }
  fmt.Println(midifile.NewEncoder(&W{}).Encode(*smf) != nil)
}""")
assert out.strip() == 'true', out + err
'''),
dict(id='b15-template-global', property='C23', needs='two disassemblers, templates loaded into one of them',
 breaks='a template loaded into one disassembler changes the output of others',
 edits=[('ops/disassemble/disassemble.go','''	tmpl, err := template.New("document").Funcs(functions).Parse(document)
	if err != nil {
		return nil, err
	}

	return &Disassemble{
		root: tmpl,
	}, nil''','''	if root == nil {
		tmpl, err := template.New("document").Funcs(functions).Parse(document)
		if err != nil {
			return nil, err
		}

		root = tmpl
	}

	return &Disassemble{
		root: root,
	}, nil'''),('ops/disassemble/disassemble.go','type Disassemble struct {','var root *template.Template\n\ntype Disassemble struct {')],
 demo='''
write('a.mid', smf(0, 480, [(0, [0x90, 60, 1]), EOT]))
code, out, err = gorun("""package main
import ("fmt"; "os"; "bytes"; "strings"
midifile "github.com/transcriptaze/midiasm/encoding/midi"
"github.com/transcriptaze/midiasm/ops/disassemble")
func main() {
  b, _ := os.ReadFile("a.mid")
  smf, err := midifile.NewDecoder().Decode(bytes.NewReader(b))
  if err != nil { panic(err) }
  x, _ := disassemble.NewDisassemble()
  y, _ := disassemble.NewDisassemble()
  if err := x.LoadTemplates(strings.NewReader(`{"templates":{"noteon":"QQQ"}}`)); err != nil { panic(err) }
  var s bytes.Buffer
  if err := y.Print(smf, "document", &s); err != nil { panic(err) }
  fmt.Println(!strings.Contains(s.String(), "QQQ"))
}""")
assert out.strip() == 'true', out + err
'''),
dict(id='b16-numerator-wraps', property='C06', needs='a time signature with a numerator of 256 or more in a text source',
 breaks='the numerator wraps instead of being rejected',
 edits=[('midi/events/meta/time_signature.go','numerator, err := strconv.ParseUint(match[2], 10, 8); err != nil','numerator, err := strconv.ParseUint(match[2], 10, 16); err != nil')],
 demo='''
f = write('a.txt', 'MThd format:0, metrical time:96 ppqn\\nMTrk\\ndelta:0 58 TimeSignature 260/4, 24 ticks per click, 8/32 per quarter\\ndelta:0 2F EndOfTrack\\n')
code, out, err = run('assemble', '--out', T + '/a.mid', f)
assert code != 0
f = write('a.txt', 'MThd format:0, metrical time:96 ppqn\\nMTrk\\ndelta:0 58 TimeSignature 26/4, 24 ticks per click, 8/32 per quarter\\ndelta:0 2F EndOfTrack\\n')
code, out, err = run('assemble', '--out', T + '/a.mid', f)
assert code == 0
'''),
]
