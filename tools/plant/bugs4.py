H = "MThd format:0, metrical time:96 ppqn\\nMTrk\\n"
MT='midi/MTrk.go'
BUGS=[
dict(id='b60-casio-meta', property='C01', needs='a meta event between the packets of a SysEx message',
 breaks='the packets of a SysEx message that come after a meta event are decoded as escape sequences',
 edits=[(MT,'	if status == 0xff {\n		ctx.RunningStatus = 0x00\n','	if status == 0xff {\n		ctx.RunningStatus = 0x00\n		ctx.Casio = false\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xf0, 2, 0x43, 1]), (0, meta(1, b'abc')), (0, [0xf7, 2, 2, 0xf7]), EOT]))
code, out, err = run('export', f)
assert code == 0 and 'SysExContinuation' in out and 'SysExEscape' not in out, out
'''),
dict(id='b61-note-name-kept', property='C16', needs='a second NoteOff for a note, after a change of key',
 breaks='only the first NoteOff for a NoteOn has its name',
 edits=[('midi/context/context.go','	if note, ok := ctx.notes[key]; ok {\n','	if note, ok := ctx.notes[key]; ok {\n		delete(ctx.notes, key)\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 61, 1]), (0, meta(0x59, bytes([0xfd, 0]))), (0, [0x80, 61, 0]), (0, [0x80, 61, 0]), EOT]))
code, out, err = run('disassemble', f)
assert code == 0 and 'D♭' not in out and out.count('C♯') == 3, out
'''),
dict(id='b62-flat-minor', property='C16', needs='D minor',
 breaks='the accidentals of D minor are sharps',
 edits=[(MT,'				if k.Accidentals < 0 {','				if k.Accidentals < 0 && (k.KeyType == lib.Major || k.Accidentals < -1) {')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x59, bytes([0xff, 1]))), (0, [0x90, 70, 1]), EOT]))
code, out, err = run('disassemble', f)
assert code == 0 and 'B♭' in out, out
'''),
dict(id='b63-out-name', property='C21', needs='a file name with a dot in a directory name, or two dots in the name, and no --out',
 breaks='the assembled file is written under another name, or in another directory',
 edits=[('commands/assemble.go','strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"','strings.Split(filename, ".")[0] + ".midi"'),],
 demo='''
f = write('v1.2.txt', "MThd format:0, metrical time:96 ppqn\\nMTrk\\ndelta:0 EndOfTrack\\n")
code, out, err = run('assemble', f)
assert code == 0 and os.path.exists(T + '/v1.2.midi'), os.listdir(T)
'''),
dict(id='b64-no-data', property='C22', needs='a SysEx message with a manufacturer and nothing else',
 breaks='the data of a SysEx message is left out of the JSON if it is empty',
 edits=[('midi/events/sysex/message.go','`json:"data"`\n		Single       bool             `json:"single"`\n	}{\n','`json:"data,omitempty"`\n		Single       bool             `json:"single"`\n	}{\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xf0, 2, 0x43, 0xf7]), EOT]))
code, out, err = run('export', f)
assert code == 0 and '"data"' in out.split('SysExMessage')[1].split('}')[1 if '"manufacturer"' in out else 0] + out.split('SysExMessage')[1].split('EndOfTrack')[0], out
'''),
dict(id='b65-hex-tabs', property='C05', needs='a text source with a tab between two hex bytes',
 breaks='bytes that are separated by tabs are rejected',
 edits=[('midi/lib/hex.go','`\\s+`','` +`')],
 demo='''
f = write('a.txt', "MThd format:0, metrical time:96 ppqn\\nMTrk\\ndelta:0 SysExMessage Yamaha, 01\\t02\\ndelta:0 EndOfTrack\\n")
code, out, err = run('assemble', '--out', T + '/a.mid', f)
assert code == 0 and bytes([0xf0, 4, 0x43, 1, 2, 0xf7]) in read('a.mid'), out
'''),
dict(id='b66-split-dots', property='C19', needs='a file name that has its extension twice',
 breaks='the files of a split disassembly lose the first occurrence of the extension from their names',
 edits=[('commands/disassemble.go','base := strings.TrimSuffix(path.Base(file), path.Ext(file))','base := strings.Replace(path.Base(file), path.Ext(file), "", 1)')],
 demo='''
f = write('a.mid.bak.mid', smf(0, 480, [EOT]))
os.mkdir(T + '/out')
code, out, err = run('disassemble', '--split', '--out', T + '/out', f)
assert code == 0 and sorted(os.listdir(T + '/out')) == ['a.mid.bak-0.MTrk', 'a.mid.bak.MThd'], os.listdir(T + '/out')
'''),
dict(id='b67-tsv-backslash', property='C15', needs='a delimiter that starts with a backslash and is not \\\\t',
 breaks='any delimiter that starts with a backslash is taken for a tab',
 edits=[('commands/tsv.go','} else if t.delimiter == "" || t.delimiter == `\\t` {','} else if t.delimiter == "" || t.delimiter[0] == \'\\\\\' {')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(1, b'a')), EOT]))
code, out, err = run('tsv', '--out', T + '/a.tsv', '--delimiter', '\\\\', f)
assert code == 0 and b'\\t' not in read('a.tsv'), read('a.tsv')
'''),
dict(id='b68-kindred-name', property='C27', needs='a manufacturer of the configuration whose name is the start of that of another',
 breaks='a name may select the manufacturer whose name merely starts with it',
 edits=[('midi/lib/manufacturer.go','		if s == m.Name {','		if strings.HasPrefix(m.Name, s) {')],
 demo='''
for attempt in range(40):
    c = write('conf.json', json.dumps({'manufacturers': [{'id': [0x2a], 'name': 'Zyx', 'region': 'x'}] + [{'id': [0, 0x55, i], 'name': 'Zyx Audio %d' % i, 'region': 'x'} for i in range(40)]}))
    f = write('a.txt', "MThd format:0, metrical time:96 ppqn\\nMTrk\\ndelta:0 SysExMessage Zyx, 01 02\\ndelta:0 EndOfTrack\\n")
    code, out, err = run('--conf', c, 'assemble', '--out', T + '/a.mid', f)
    if code: code, out, err = run('assemble', '--conf', c, '--out', T + '/a.mid', f)
    if code == 0:
        assert bytes([0xf0, 4, 0x2a, 1, 2, 0xf7]) in read('a.mid'), read('a.mid')
'''),
dict(id='b69-tail-track', property='C09', needs='a track chunk with nothing in it, in a file that has one more track chunk than the header says',
 breaks='a track chunk that is empty is skipped rather than reported',
 edits=[('encoding/midi/decoder.go','if string(chunk[0:4]) == "MTrk" {','if string(chunk[0:4]) == "MTrk" && len(chunk) > 8 {')],
 demo='''
f = write('a.mid', b'MThd' + bytes([0,0,0,6, 0,1, 0,1, 1, 0xe0]) + chunk(b'MTrk', b'') + chunk(b'MTrk', bytes([0, 0xff, 0x2f, 0])))
code, out, err = run('disassemble', f)
assert code != 0, out
'''),
dict(id='b70-tsv-rows', property='C15', needs='a track with exactly one event more than the longest of those before it',
 breaks='the table has a row too few',
 edits=[('commands/tsv.go','		if len(t.Events) > rows {','		if rows == 0 || len(t.Events) > rows+1 {')],
 demo='''
f = write('a.mid', smf(1, 480, [EOT], [(0, meta(1, b'a')), EOT]))
code, out, err = run('tsv', '--out', T + '/a.tsv', f)
assert code == 0 and len(read('a.tsv').split(b'\\n')) >= 3, read('a.tsv')
'''),
dict(id='b71-bank-msb', property='C17', needs='a bank LSB that is selected before the MSB',
 breaks='selecting the MSB of a bank forgets the LSB',
 edits=[(MT,'(chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)','(v & 0x007f) << 7')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xb0, 0x20, 5]), (0, [0xb0, 0, 2]), (0, [0xc0, 7]), EOT]))
code, out, err = run('disassemble', f)
assert code == 0 and 'bank:261' in out, out
'''),
dict(id='b72-transpose-far', property='C10', needs='transposing by more than 127 semitones',
 breaks='the number of semitones wraps at 8 bits for the note on events',
 edits=[('midi/events/midi/note_on.go','	v := int(e.Note.Value) + steps\n','	v := int(e.Note.Value) + int(int8(steps))\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 60, 1]), (0, [0x80, 60, 1]), EOT]))
code, out, err = run('transpose', '--semitones', '200', '--out', T + '/b.mid', f)
assert code == 0 and bytes([0x90, 127, 1]) in read('b.mid'), read('b.mid')
'''),
dict(id='b73-octave', property='C16', needs='the lowest octave with middle C as C4',
 breaks='the octaves below -1 are shown as -1',
 edits=[('midi/context/context.go','octave = int(n/12) - 2\n	} else {\n		octave = int(n/12) - 1','octave = int(n/12) - 2\n		if octave < -1 {\n			octave = -1\n		}\n	} else {\n		octave = int(n/12) - 1')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 0, 1]), EOT]))
outs = [run('disassemble', *o, f)[1] for o in (['--C4'], [], ['--middle-c', 'C4'])]
assert any('C-2' in o for o in outs), outs
'''),
dict(id='b74-json-escape', property='C04', needs='a file with a text of several megabytes',
 breaks='an export of more than 16 MB comes out empty, without an error',
 edits=[('ops/export/export.go','	if bytes, err := json.MarshalIndent(smf, "", "  "); err != nil {','	if bytes, err := json.MarshalIndent(smf, "", "  "); err != nil || len(bytes) > 1<<24 {')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xf0] + list(vlq(1500001)) + [0x43] + [1] * 1499999 + [0xf7]), EOT]))
code, out, err = run('export', '--out', T + '/a.json', f)
assert code == 0
code, out, err = run('assemble', '--out', T + '/b.mid', T + '/a.json')
assert code == 0 and read('a.mid') == read('b.mid')
'''),
dict(id='b75-drop-frame', property='C28', needs='a header with 29 frames per second and no ticks per frame',
 breaks='such a header is not marked as drop frame when it is decoded',
 edits=[('midi/MThd.go','			mthd.FPS = 29\n			mthd.DropFrame = true\n		case 0xe2:\n			mthd.FPS = 30\n		default','			mthd.FPS = 29\n			mthd.DropFrame = mthd.Division != 0xe300\n		case 0xe2:\n			mthd.FPS = 30\n		default')],
 demo='''
code, out, err = gorun(\'\'\'
package main
import ("fmt"; "os"; "github.com/transcriptaze/midiasm/midi")
func main() {
	h := midi.MThd{}
	err := h.UnmarshalBinary([]byte{'M','T','h','d',0,0,0,6,0,0,0,1,0xe3,0})
	fmt.Println(h.DropFrame, err)
	if err != nil || !h.DropFrame { os.Exit(1) }
}
\'\'\')
assert code == 0, out
'''),
dict(id='b76-shared-events', property='C29', needs='two tracks made with NewMTrk, both with events',
 breaks='the tracks share the array of their events, so that adding an event to one overwrites that of another',
 edits=[(MT,'func NewMTrk() (*MTrk, error) {','var none = make([]*events.Event, 0, 16)\n\nfunc NewMTrk() (*MTrk, error) {'),(MT,'		Events: []*events.Event{},\n		Bytes:','		Events: none,\n		Bytes:')],
 demo='''
code, out, err = gorun(\'\'\'
package main
import ("fmt"; "os"; "bytes"; "github.com/transcriptaze/midiasm/midi"; "github.com/transcriptaze/midiasm/midi/events"; metaevent "github.com/transcriptaze/midiasm/midi/events/meta"; midifile "github.com/transcriptaze/midiasm/encoding/midi")
func main() {
	h := midi.MakeMThd(1, 2, 480)
	smf := midi.SMF{MThd: &h}
	for _, s := range []string{"one", "two"} {
		t, _ := midi.NewMTrk()
		t.Events = append(t.Events, events.NewEvent(metaevent.MakeText(0, 0, s)), events.NewEvent(metaevent.MakeEndOfTrack(0, 0)))
		smf.Tracks = append(smf.Tracks, t)
	}
	var b bytes.Buffer
	err := midifile.NewEncoder(&b).Encode(smf)
	fmt.Println(b.Bytes(), err)
	if err != nil || !bytes.Contains(b.Bytes(), []byte("one")) || !bytes.Contains(b.Bytes(), []byte("two")) { os.Exit(1) }
}
\'\'\')
assert code == 0, out
'''),
dict(id='b77-made-fps', property='C29', needs='a header made for 30 frames per second',
 breaks='a header that is made for 30 frames per second is taken for 29',
 edits=[('midi/MThd.go','		case 0xe2:\n			mthd.FPS = 30\n			mthd.DropFrame = false','		case 0xe2:\n			mthd.FPS = 29\n			mthd.DropFrame = false')],
 demo='''
code, out, err = gorun(\'\'\'
package main
import ("os"; "github.com/transcriptaze/midiasm/midi")
func main() {
	if h := midi.MakeMThd(1, 0, 0xe228); h.FPS != 30 { os.Exit(1) }
}
\'\'\')
assert code == 0, out
'''),
]
