BUGS=[
dict(id='b78-long-rest', property='C11', needs='a rest of more than 2^31 ticks between two notes',
 breaks='the notes after a very long rest are missing from the list',
 edits=[('ops/notes/notes.go','	notes := []event{}\n	for i := range list {\n		e := list[i]\n','	notes := []event{}\n	for i := 0; i < len(list) && (len(notes) == 0 || list[i].tick-notes[len(notes)-1].tick < 1<<31); i++ {\n		e := list[i]\n')],
 demo='''
N = (0x0fffffff, [0xff, 0x21, 1, 0])
f = write('a.mid', smf(0, 480, [(0, [0x90, 60, 64]), (480, [0x80, 60, 0])] + [N]*9 + [(0, [0x90, 62, 64]), (480, [0x80, 62, 0]), EOT]))
code, out, err = run('notes', f)
assert code == 0 and out.count('note:') == 2, out
'''),
dict(id='b79-tsv-ditto', property='C15', needs='two events in a row with the same details, of more than 40 characters',
 breaks='the details of an event are left out if they are those of the event before it',
 edits=[('commands/tsv.go','				records[row][col] = f\n','				if k < 6 || row < 2 || len(f) < 40 || records[row-1][col] != f {\n					records[row][col] = f\n				}\n')],
 demo='''
s = b'x' * 50
f = write('a.mid', smf(0, 480, [(0, meta(1, s)), (0, meta(1, s)), EOT]))
code, out, err = run('tsv', '--out', T + '/a.tsv', f)
assert code == 0 and read('a.tsv').count(s) == 2, out
'''),
dict(id='b80-alien-cut', property='C09', needs='a chunk of an unknown type, cut short, at the end of the file',
 breaks='a file that is cut off within a chunk of an unknown type is accepted',
 edits=[('encoding/midi/decoder.go','		} else if err != nil {\n			break\n','		} else if err != nil {\n			break\n'),('encoding/midi/decoder.go','errors.Is(err, io.EOF) {\n		return nil, io.ErrUnexpectedEOF','errors.Is(err, io.EOF) && string(buffer[0:4]) == "MTrk" {\n		return nil, io.ErrUnexpectedEOF')],
 demo='''
f = write('a.mid', smf(0, 480, [EOT]) + b'ABCD' + bytes([0, 0, 0, 9, 1, 2, 3, 4]))
code, out, err = run('export', f)
assert code != 0, out
'''),
dict(id='b81-run-late', property='C02', needs='a NoteOn on channel 14 and then one on channel 15, more than 127 events into the track',
 breaks='the encoder leaves out the status byte of a note on another channel',
 edits=[('encoding/midi/encoder.go','				if status == last.event[0] {','				if status == last.event[0] || i > 127 && status == 0x9f && last.event[0] == 0x9e {')],
 demo='''
L = [(0, [0x90, 60, 64])] * 130 + [(0, [0x9e, 60, 64]), (0, [0x9f, 61, 64]), EOT]
f = write('a.mid', smf(0, 480, L))
code, out, err = run('transpose', '--semitones', '0', '--out', T + '/b.mid', f)
assert code == 0
code, out, err = run('disassemble', T + '/b.mid')
assert code == 0 and 'channel:15' in out, out
'''),
dict(id='b82-msb-last', property='C18', needs='a Bank Select MSB directly before the EndOfTrack event, in a track with an earlier LSB',
 breaks='a Bank Select MSB that is followed by the end of the track goes unreported',
 edits=[('midi/smf.go','(c[1] == nil || c[1].Controller.ID != 0x20) {','(c[1] == nil && i+1 < len(track.Events) || c[1] != nil && c[1].Controller.ID != 0x20) {')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xb0, 0, 1]), (0, [0xb0, 32, 1]), (0, [0xb0, 0, 1]), EOT]))
code, out, err = run('export', f)
assert 'MSB' in err, err
'''),
dict(id='b83-debug-stdout', property='C21', needs='the --debug option and a command with messages at that level',
 breaks='debug messages are written into the output',
 edits=[('log/log.go','		syslog.Printf(logging.format, l, operation, msg)\n','		if l < Debug {\n			syslog.Printf(logging.format, l, operation, msg)\n		} else {\n			fmt.Printf(logging.format+"\\n", l, operation, msg)\n		}\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 60, 64]), (480, [0x80, 60, 64]), EOT]))
code, out, err = run('notes', '--debug', f)
code2, out2, err2 = run('notes', f)
assert code == 0 and out == out2, out
'''),
]
