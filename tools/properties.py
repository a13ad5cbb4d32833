#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEC = ['encoding/midi/decoder.go', 'encoding/midi/decode.go', 'midi/MThd.go', 'midi/MTrk.go', 'midi/events']
P = []


def p(id, title, statement, over, quant, why, files, mechanism, rule, technique, note, observe=None, **check):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  rule=rule, technique=technique, note=note, observe=observe or [], check=check))


FILES = ('A case is a model of a MIDI file (format, division, tracks of events of every kind) and the choices a writer has: running status, '
         'padded variable length quantities, chunks of other types. ')
SWEEP = 'All values of the small fields (128 notes/controllers/programs x 16 channels, 16384 bends, 30 keys, denominators, manufacturers, edge lengths and deltas) are enumerated besides. '

p('C01', 'Decoding a Standard MIDI File yields exactly the events the file contains',
  'Decoding a well formed Standard MIDI File (format 0, 1 or 2, metrical or SMPTE time) yields its format, division and tracks and, in order, every event with its kind, channel, values, delta, absolute tick (the sum of the deltas so far) and original bytes. '
  'Running status (which ends at meta and SysEx events), non-minimal variable length quantities, chunks of unknown type and multi-packet SysEx messages do not change what is decoded.',
  ['inputs'], 'every well formed MIDI file and every way of encoding it', 'The tests decode about ten fixed files; they reach no padded quantity, few running status runs, no tick beyond 16 bits and no field of more than 127 bytes.',
  ['encoding/midi/decoder.go', 'midi/MThd.go', 'midi/MTrk.go', 'midi/events', 'midi/context/context.go', 'midi/reader.go'],
  [('Decoder.Decode, chunk reader', 'encoding/midi/decoder.go'), ('running status and event dispatch', 'encoding/midi/decoder.go, midi/events'), ('SysEx packet state ("casio" flag)', 'midi/context/context.go')],
  FILES + SWEEP + 'Non-trivial: events of at least three kinds, or more than 20 events.', 'property-based testing against an independent SMF reference encoder',
  'Generated files only: nothing is proved. Trusts the reference encoder in harness/refcodec.go, written from the SMF specification except for the two pinned deviations in known-findings.txt.', ['decoded events'])

p('C02', 'Encoding a decoded file reproduces it',
  'Encoding a decoded MIDI file gives a well formed MIDI file with the same format, division, tracks and events; a file that was written without running status, padding or unknown chunks is reproduced byte for byte, except that a status byte that repeats the status of the event before it may be left out (running status). Encoding what was just encoded gives the same bytes again.',
  ['inputs'], 'every well formed MIDI file', 'The encoder is tested on one fixed file.',
  ['encoding/midi/encoder.go', 'midi/events', 'midi/lib/delta.go', 'midi/lib/types.go'], [('Encoder.Encode', 'encoding/midi/encoder.go'), ('MarshalBinary of each event', 'midi/events')],
  FILES + SWEEP + 'Non-trivial: as for C01.', 'property-based round trip (decode, encode, reference parser)', 'Generated files only. Trusts the reference parser.', ['encoded bytes'])

p('C03', 'Disassembling and then assembling the text reproduces the MIDI file',
  'The text that disassembling a MIDI file produces is accepted by the assembler, under either middle C setting, and assembles to a file with the same format, division, tracks and events. '
  'This holds for every file whose manufacturers are in the manufacturer table and whose texts fit on a line (no newline, leading white space or trailing carriage return).',
  ['inputs', 'configurations'], 'every such file, under both middle C settings', 'The tests assemble one reference listing and do not feed a listing back in.',
  ['ops/disassemble/disassemble.go', 'ops/disassemble/template', 'ops/assemble/text.go', 'midi/events'], [('listing template', 'ops/disassemble/template'), ('text assembler', 'ops/assemble/text.go'), ('UnmarshalText of each event', 'midi/events')],
  FILES + SWEEP + 'Non-trivial: as for C01.', 'property-based round trip (disassemble, assemble)', 'Generated files only, in the stated domain; what the text cannot carry is in known-findings.txt.', ['assembled bytes'])

p('C04', 'Exporting to JSON and then assembling the JSON reproduces the MIDI file',
  'The JSON export of a MIDI file is accepted by the assembler, under either middle C setting, and assembles to a file with the same format, division, tracks and events. This holds for every file whose texts are valid UTF-8.',
  ['inputs', 'configurations'], 'every such file, under both middle C settings', 'The tests assemble one reference export and do not feed an export back in.',
  ['ops/export/export.go', 'ops/assemble/json.go', 'midi/events', 'midi/MThd.go', 'midi/MTrk.go'], [('export', 'ops/export/export.go'), ('JSON assembler', 'ops/assemble/json.go'), ('MarshalJSON/UnmarshalJSON of each event', 'midi/events')],
  FILES + SWEEP + 'Non-trivial: as for C01.', 'property-based round trip (export, assemble)', 'Generated files only, in the stated domain; what JSON cannot carry is in known-findings.txt.', ['assembled bytes'])

p('C05', 'A text or JSON source assembles to exactly the MIDI file it describes',
  'A valid text source (with or without hex columns and ticks, any white space, blank lines, comments, LF or CRLF) or JSON source assembles to a well formed MIDI file with exactly the header, tracks and events that it describes, in order. Notes may be spelled with sharps or flats, and key names, controllers and manufacturers by any name that the tool itself uses.',
  ['inputs', 'configurations'], 'every valid source and layout, under both middle C settings', 'The tests assemble two fixed sources with one layout.',
  ['ops/assemble/text.go', 'ops/assemble/json.go', 'midi/events', 'midi/lib/note.go'], [('chunking and line parsing', 'ops/assemble/text.go'), ('JSON event decoding', 'ops/assemble/json.go'), ('ParseNote', 'midi')],
  'A case is a model file written as source by an independent writer with a drawn layout. ' + SWEEP + 'Non-trivial: events of at least three kinds.', 'property-based testing against an independent source writer and SMF parser', 'Generated sources only. Trusts harness/source.go and the reference parser.', ['assembled bytes'])

p('C06', 'A source with a value that MIDI cannot represent is rejected, not mangled',
  'Assembling a text or JSON source in which some value is out of range (channel, note, velocity, controller, program, bend, tempo, delta, SMPTE offset, key, time signature, data byte, format, division and so on) fails with an error. No value is wrapped, truncated or clamped into range.',
  ['inputs'], 'every field of every event and every out of range value', 'No test assembles an out of range value.',
  ['ops/assemble/text.go', 'ops/assemble/json.go', 'midi/events', 'midi/lib'], [('range checks in UnmarshalText/UnmarshalJSON', 'midi/events')],
  'A case is an otherwise valid source with one out of range value; each field is also enumerated with edge values. Non-trivial: every case.', 'property-based negative testing over a table of ranges', 'Generated and enumerated values. Trusts the table of ranges in harness/c06.go.', ['error returned'])

p('C07', 'No MIDI input crashes, hangs or exhausts memory, at any stage',
  'For any bytes at all, decoding either returns an error or a file on which every operation (encode, disassemble, export, notes, click, transpose, validate) returns without a panic. Time and memory stay in proportion to the size of the input, and nothing is left running afterwards.',
  ['inputs'], 'all byte strings', 'The tests have a handful of well formed files.',
  ['encoding/midi/decoder.go', 'midi/MTrk.go', 'midi/events', 'midi/lib', 'ops'], [('length checks of chunks and variable length fields', 'encoding/midi/decoder.go, midi/events')],
  'A case is a valid file with mutations (bit flips, edits, spliced and truncated chunks, forged lengths, length fields repaired or not) or a file of raw event bytes; or one of 21 shapes of large file, at two sizes. Non-trivial: longer than a header.', 'structure-aware fuzzing with panic, time and allocation oracles', 'Generated inputs only; memory limit 8 MB + 3000 bytes per input byte, 60 s per case.', ['panic', 'allocation'])

p('C08', 'Assembling any source is rejected cleanly or yields a well formed MIDI file',
  'For any text or JSON source at all, the assembler either returns an error or a file that is well formed by the SMF specification and that decodes to what it contains. It never panics, its time and memory stay in proportion to the source, and nothing it started is left running once it has returned.',
  ['inputs'], 'all sources', 'The tests assemble two valid sources.',
  ['ops/assemble', 'midi/events', 'midi/lib'], [('text assembler', 'ops/assemble/text.go'), ('JSON assembler', 'ops/assemble/json.go')],
  'A case is a valid source with mutated characters, tokens, lines or JSON values, or a large source (59 shapes, each at two sizes). Non-trivial: longer than 30 bytes.', 'structure-aware fuzzing with a strict SMF parser as the oracle', 'Generated sources only.', ['assembled bytes'])

p('C09', 'A malformed MIDI file is reported as an error and a well formed one is accepted',
  'Decoding returns an error if a file is truncated anywhere, has a chunk or field whose length disagrees with its contents, a data byte of 128 or more, a missing status byte, an over-long variable length quantity or a header count that disagrees with its tracks, and never returns a partial file along with an error. Every file that is well formed is accepted.',
  ['inputs'], 'all byte strings near a MIDI file', 'The tests have a few malformed events and no malformed files.',
  ['encoding/midi/decoder.go', 'midi/MThd.go', 'midi/MTrk.go', 'midi/events'], [('header and chunk validation', 'encoding/midi/decoder.go, midi/MThd.go'), ('event validation', 'midi/events')],
  'Cases as for C07, and every kind of valid file cut short. Each is judged by an independent parser. Non-trivial: longer than a header.', 'differential fuzzing against an independent SMF parser', 'Generated inputs only. Where the specification leaves a choice, the reference parser follows the decoder (see DESIGN.md).', ['error returned', 'decoded events'])

p('C10', 'Transposing shifts every note and key signature, and changes nothing else',
  'Transposing by N semitones adds N to the note of every NoteOn and NoteOff (limited to 0..127) and moves the tonic of every key signature by N semitones while keeping its mode; everything else in the file, deltas and velocities included, stays as it was. The enharmonic spelling of a transposed key is left to the tool. The file passed in is not altered.',
  ['inputs'], 'every MIDI file and every N', 'The tests transpose one file by one amount.',
  ['ops/transpose/transpose.go', 'midi/events/midi/note_on.go', 'midi/events/midi/note_off.go', 'midi/events/meta/key_signature.go'], [('Transpose.Execute', 'ops/transpose/transpose.go'), ('TransposeNoteOn/TransposeNoteOff', 'midi/events/midi'), ('TransposeKeySignature', 'midi/events/meta')],
  FILES + 'N is drawn from -140..140 and beyond; all notes and keys x N in -140..140 are enumerated. Non-trivial: a note or a key signature and N other than 0.', 'property-based testing against a reference model, with enumeration', 'Generated files only. Which of two enharmonic keys results is not constrained.', ['transposed bytes'])

p('C11', 'The notes list has every note with its exact start and end time',
  'The notes operation lists every NoteOn that is followed by a matching NoteOff (or NoteOn with velocity 0) once, with its channel, pitch (plus the requested transposition), velocity, start and end, in text and in JSON. (A NoteOn for a note that is already sounding on its channel does not start another note, and a note that is still sounding at the end of its track ends there.) Times are those given by the division and by all tempo changes up to that tick, in whatever track of the file they are (in its own track for a format 2 file), to within a millisecond.',
  ['inputs', 'configurations'], 'every metrical MIDI file with any tempo map, both formats, any transposition', 'The tests list the notes of one file with one tempo.',
  ['ops/notes/notes.go'], [('tempo map and note pairing', 'ops/notes/notes.go')],
  'A case is a score: overlapping and repeated notes on several tracks and channels with a drawn tempo map. Non-trivial: at least two notes and a tempo change.', 'property-based testing against an exact rational reference', 'Generated scores only. Tempo changes of different tracks at the same tick are not generated.', ['notes text', 'notes JSON'])

p('C12', 'Operations are independent: results depend only on the input, not on history',
  'The result of any operation depends on its input and options alone: not on the operations (failed ones included) that ran before it, on other uses of the same decoded file or tool object, on other tracks of the same file for per-track state, or on operations running at the same time, be it on the same decoded file. Repeating an operation gives the same result.',
  ['histories', 'schedules', 'inputs'], 'every sequence of operations on valid and malformed inputs, and concurrent runs', 'Each test runs one operation once in a fresh state.',
  ['midi/context/context.go', 'encoding/midi/decoder.go', 'ops', 'midi/lib'], [('context per track', 'encoding/midi/decoder.go, midi/context/context.go'), ('operations copy what they change', 'ops/transpose/transpose.go')],
  'A case is a history of up to 8 operations on up to 3 inputs; each result is compared with the operation run alone, in sequence, on shared objects and concurrently under the race detector; part of the histories, with changes of the middle C setting, run in fresh processes with each operation alone in a process of its own as the reference. Non-trivial: more than one input and more than two steps.', 'stateful property-based testing of histories, and concurrent runs under the race detector', 'Generated histories. The schedule is whatever the Go scheduler does; races are found by the race detector.', ['results'], race=True)

p('C13', 'Read and write faults are reported, and input may arrive in any pieces',
  'However an input (MIDI file, source, or file of templates or manufacturers) is split into reads, the result is the same. If reading the input fails part of the way, the operation returns an error; if writing any part of the output fails, the operation returns an error.',
  ['inputs', 'fault_sequences'], 'every split of the input and every position of a fault', 'The tests read from memory and write to memory.',
  ['encoding/midi/decoder.go', 'encoding/midi/encoder.go', 'ops'], [('io.ReadFull and error returns', 'encoding/midi/decoder.go, ops')],
  'A case is an input, the sizes of the reads and the position of a fault; writes fail at a drawn position. Non-trivial: a fault strictly inside the data, or several pieces.', 'property-based fault injection', 'Generated faults; each position of small outputs is reached many times over.', ['error returned'])

p('C14', 'The click track lists every tempo and time signature change at its bar',
  'For a file whose time signatures fall on bar lines, the click track lists an entry for the first bar and for each bar at which the tempo or the time signature changes, in order, whatever track the change is in, with the bar number, the tempo in beats per minute at the end of the bar, and the time signature, followed by the spans of bars between them. There is no other entry, except that the last one may be for the last bar.',
  ['inputs'], 'every tempo map and every sequence of time signatures', 'The tests have one file with one time signature.',
  ['ops/click/click.go'], [('bar arithmetic', 'ops/click/click.go')],
  'A case is a sequence of time signatures on bar lines and of tempo changes on and between them, spread over the tracks. Non-trivial: a change after the first bar.', 'property-based testing against a reference bar counter', 'Generated maps of format 0 and 1 files only.', ['click listing'])

p('C15', 'The TSV has a row for every event of every track, with its values',
  'The tsv command writes a table with seven columns per track, side by side, in which row n of a track is its n-th event: tick, delta, tag, channel, note, velocity and details. Any standard reader of delimiter separated values recovers every field exactly, whatever the texts contain and whatever delimiter was asked for; --tabular (and stdout) give the same table in columns of a fixed width.',
  ['inputs', 'configurations'], 'every MIDI file and every delimiter', 'The tests have one file and one delimiter.',
  ['commands/tsv.go'], [('table and fields', 'commands/tsv.go')],
  FILES + SWEEP + 'The delimiter is drawn. Non-trivial: as for C01.', 'property-based testing against a reference table and an independent reader', 'Generated files only. Fixed width output is checked for printable ASCII.', ['tsv file', 'stdout'])

p('C16', 'Notes are named by the key signature in force and the middle C setting',
  'Each note is named with sharps, or with flats once a key signature with flats has been seen in its track (until one without); a NoteOff has the name of the NoteOn that it ends. By default note 60 is C4, and with --C4 it is C3; octaves run from C to B.',
  ['inputs', 'configurations'], 'every sequence of notes and key signatures, both middle C settings', 'The tests name a few notes in one or two keys.',
  ['midi/lib/note.go', 'midi/context/context.go', 'midi/events/midi'], [('scale in force', 'midi/context/context.go'), ('FormatNote', 'midi')],
  'A case is a file of notes and key signatures; all notes in all pairs of keys are enumerated. Non-trivial: at least three notes.', 'property-based testing against a reference model, with enumeration', 'Generated files; the enumeration of notes and keys is complete.', ['note names'])

p('C17', 'A program change has the bank last selected on its channel in its track',
  'The bank shown with a program change is 128 times the last Bank Select MSB plus the last Bank Select LSB on the same channel before it in the same track, 0 if there was none. No other controller, channel or track affects it.',
  ['inputs', 'histories'], 'every sequence of controllers and program changes', 'The tests have one bank select.',
  ['midi/context/context.go', 'midi/events/midi/controller.go', 'midi/events/midi/program_change.go'], [('program bank', 'midi/context/context.go')],
  'A case is a file of controllers and program changes on several channels and tracks; all 16384 banks and all controllers are enumerated. Non-trivial: a program change with a bank other than 0.', 'property-based testing against a reference model, with enumeration', 'Generated files; the enumeration of banks is complete.', ['bank'])

p('C18', 'Validation reports every structural fault of a file, and nothing else',
  'Validation of a decoded file reports, for each occurrence and with its track and position: a format 0 file without exactly one track; an event in the first track of a format 1 file other than Tempo, TimeSignature, TrackName, SMPTEOffset, Copyright and EndOfTrack; a Tempo or SMPTEOffset in its other tracks; an EndOfTrack that is missing or not last; and a Bank Select MSB not directly followed by its LSB, or an LSB not directly preceded by its MSB, on the same channel. A file with none of these is reported as having no errors.',
  ['inputs'], 'every decodable file', 'The tests validate two or three files with one fault each.',
  ['midi/smf.go', 'midi/events/event.go'], [('SMF.Validate', 'midi/smf.go'), ('IsTrack0Event, IsTrack1Event', 'midi/events/event.go')],
  'A case is a file with or without such faults; all pairs of controllers with a bank select, and all kinds of events in all tracks and formats, are enumerated. Non-trivial: there is something to report.', 'property-based testing against a reference validator, with enumeration', 'Generated files only.', ['validation errors'])

p('C19', 'Split disassembly writes one file per chunk that together are the whole listing',
  'disassemble --split writes <name>.MThd and one <name>-<n>.MTrk for each track n, beside the MIDI file or in the --out folder (created if need be), and nothing else. Each has exactly the lines of its chunk in the unsplit listing, replaces whatever was there, and the MIDI file is left alone.',
  ['inputs', 'configurations'], 'every MIDI file, file name and output folder', 'No test uses --split.',
  ['commands/disassemble.go', 'ops/disassemble/disassemble.go'], [('separate', 'commands/disassemble.go')],
  FILES + 'File name, folder and left over files are drawn. Non-trivial: as for C01.', 'property-based testing, differential (split against whole listing) and against a reference listing', 'Generated files only; runs in a scratch folder.', ['files'])

p('C20', 'The disassembly shows every event with its bytes, tick, delta and values',
  'The listing has a line for the header, a line for each track and a line for each event, in order. An event line shows its bytes (all of them, or a prefix that ends with an ellipsis), tick, delta, code, tag and all its values; the header and track lines show the bytes, format, track count, division, track number and length.',
  ['inputs', 'configurations'], 'every MIDI file, both middle C settings', 'The tests list two files.',
  ['ops/disassemble/disassemble.go', 'ops/disassemble/template', 'midi/events', 'midi/lib/hex.go'], [('listing template', 'ops/disassemble/template')],
  FILES + SWEEP + 'Non-trivial: as for C01.', 'property-based testing against a reference listing', 'Generated files only; spacing is not constrained.', ['listing'])

p('C21', 'The command line tool gives the library\'s result in full, or fails visibly',
  'Each command (disassemble being the default) writes exactly what the library produces for the input and options (custom templates included) to stdout or to --out (which transpose requires), replacing what was there, leaves all other files alone and exits with 0; validation errors are listed on stderr. If the input is missing or malformed, the operation fails or the output cannot be written in full, it prints an error and exits with a code other than 0, and malformed input does not touch the output file. help and version display something and leave all files alone.',
  ['inputs', 'configurations', 'fault_sequences'], 'every command, option, output destination and input', 'No test runs the tool.',
  ['cmd/midiasm/main.go', 'commands'], [('main', 'cmd/midiasm/main.go'), ('Execute of each command', 'commands')],
  'A case is a command line, an input file (valid or not) and a destination (stdout, new file, existing file, the input itself, a full device, a missing folder), run in a fresh process in a scratch folder. Non-trivial: the operation succeeds with output.', 'property-based differential testing of the built binary against the library, with output faults', 'Generated command lines only. /dev/full stands in for a full disk.', ['exit code', 'stdout', 'stderr', 'files'])

p('C22', 'The JSON export has every event with its values',
  'The export is valid JSON with the header (format, track count, division and its parts) and, for each track in order, every event in order with its tag, status, type, delta, and all its values, including note names, banks, keys, controllers and manufacturers.',
  ['inputs', 'configurations'], 'every MIDI file with UTF-8 texts, both middle C settings', 'The tests export one file.',
  ['ops/export/export.go', 'midi/events', 'midi/MThd.go', 'midi/MTrk.go'], [('Export', 'ops/export/export.go'), ('MarshalJSON', 'midi/events')],
  FILES + SWEEP + 'Non-trivial: as for C01.', 'property-based testing against a reference document', 'Generated files only; additional fields are allowed.', ['JSON'])

p('C23', 'A custom template changes the lines of its event kind and no others',
  'A template loaded for a kind of event is used for every event of that kind, with the values of the event and the pad and ellipsize functions available, and leaves the rest of the line and all other lines as they were. It affects only the disassembler that it was loaded into.',
  ['inputs', 'configurations'], 'every set of templates and every MIDI file', 'The tests override one template on one file.',
  ['ops/disassemble/disassemble.go', 'ops/disassemble/template'], [('LoadTemplates', 'ops/disassemble/disassemble.go'), ('dispatch by tag', 'ops/disassemble/template')],
  FILES + 'One to six kinds have a template with drawn prefix, width and length. Non-trivial: an event is shown with a custom template.', 'property-based metamorphic testing (with and without the templates)', 'Generated files and templates only.', ['listing'])

p('C24', 'The binary, text and JSON forms of a single event agree',
  'For every event value, marshalling it to binary, text or JSON and unmarshalling the result gives the same event, and the binary form is that of the SMF specification. (The final F7 of a SysEx packet and whatever depends on the events before it are outside a single event.)',
  ['inputs'], 'every value of every kind of event', 'The tests have one or two values of each kind.',
  ['midi/events', 'midi/lib'], [('Marshal*/Unmarshal* of each event', 'midi/events')],
  'A case is an event with drawn values; single values are enumerated. Non-trivial: every event other than EndOfTrack.', 'property-based round trips', 'Generated values only, apart from the enumeration.', ['marshalled forms'])

p('C25', 'A malformed single event is rejected and a well formed one is accepted',
  'Unmarshalling a single event from its binary form, as whatever event it is or as a given kind of event, succeeds exactly if the bytes are a well formed event (of that kind) and gives the values of those bytes; trailing bytes may be ignored or rejected. Unmarshalling a single event from text or JSON gives an event that is encoded as a well formed event with the same values, or an error (when it is encoded, at the latest). No input makes it panic.',
  ['inputs'], 'all byte strings, texts and JSON documents near an event', 'The tests unmarshal one well formed event of each kind.',
  ['midi/events/binary.go', 'midi/events/text.go', 'midi/events/json.go', 'midi/events/meta', 'midi/events/midi', 'midi/events/sysex'], [('UnmarshalBinary, UnmarshalText, UnmarshalJSON of each event', 'midi/events')],
  'A case is an event in one of the three forms, valid or mutated, and the kind to unmarshal it as (often its own); all statuses, all META types and lengths with edge values are enumerated. Non-trivial: more than two bytes.', 'differential fuzzing against an independent event parser, with enumeration', 'Generated events only, apart from the enumeration. An F7 event on its own is a SysEx continuation.', ['error returned', 'event values'])

p('C26', 'Controllers and manufacturers are shown by their published names',
  'Each controller number that the tool has a name for is shown with the name published for it, and each SysEx or sequencer specific event with the name and region of the manufacturer whose one or three byte ID it has. A three byte ID never matches a one byte ID, and an ID that is not in the table has no manufacturer.',
  ['inputs'], 'all controllers and all one and three byte manufacturer IDs', 'The tests look up three or four names.',
  ['midi/lib/manufacturer.go', 'midi/lib/controller.go'], [('LookupManufacturer', 'midi/lib'), ('LookupController', 'midi/lib')],
  'All 128 controllers and all 127 + 16384 manufacturer IDs are enumerated, besides generated files that mix them. Non-trivial: a controller or manufacturer is looked up.', 'exhaustive enumeration and property-based testing against a table', 'Complete over IDs. Trusts the table in harness/tables.go.', ['names'])

p('C27', 'Manufacturers loaded from a file are recognised from then on',
  'Loading a JSON file of manufacturers ({"manufacturers": [{"id", "region", "name"}...]}) and adding them makes each of them known by its name and region, with surrounding spaces removed: when decoding, in the export, in the listing and when assembling. It replaces a manufacturer with the same ID, leaves all others as they were, and a later file takes precedence. A file that is not valid JSON, or has an ID that is not one or three bytes, or an empty name, is rejected as a whole.',
  ['inputs', 'histories'], 'every sequence of manufacturer files and every one or three byte ID', 'No test loads manufacturers.',
  ['midi/lib/manufacturer.go'], [('LoadManufacturers, AddManufacturers', 'midi/lib'), ('LookupManufacturer, FindManufacturer', 'midi/lib')],
  'A case is one to three files, valid or not, with new IDs and IDs that are in the table, and the IDs to look up after each. It runs in a fresh process. Non-trivial: a manufacturer is added.', 'stateful property-based testing against a model of the table', 'Generated files only. No two manufacturers with the same name.', ['names', 'export', 'assembled bytes'])

p('C28', 'A header or track chunk on its own decodes to what it contains or is rejected',
  'Unmarshalling an MThd chunk succeeds exactly if its tag, length, format and division are valid and gives its format, track count, division and the parts of the division (ticks per quarter note, or frame rate, drop frame and ticks per frame), whatever the variable held before; a header made from those values is the same and is encoded as the same bytes. Unmarshalling an MTrk chunk (with a new context) succeeds exactly if its events are well formed, and gives them. Bytes that are not such a chunk, or that are too short to be one, are an error and never a panic.',
  ['inputs'], 'every byte sequence', 'The tests decode a few valid chunks.',
  ['midi/MThd.go', 'midi/MTrk.go'], [('MThd.UnmarshalBinary, MThd.MarshalBinary, MakeMThd', 'midi/MThd.go'), ('MTrk.UnmarshalBinary', 'midi/MTrk.go')],
  'A case is a header or track chunk, whole, mutated or cut short, and what was decoded into the same header before; all 65536 divisions are enumerated. Non-trivial: eight bytes or more.', 'property-based testing against a reference parser, with enumeration', 'A track chunk whose length disagrees with its data is not constrained (an existing test pins that it is accepted).', ['MThd and MTrk values', 'errors'])
p('C29', 'A file put together from made events is the file that they describe',
  'Events made with the constructors (MakeNoteOn and so on), from values that MIDI can represent, have the tick, delta, tag, status and values that they were given. A file of a made header and tracks of made events is encoded as a well formed file with exactly those events, and disassembling, exporting, listing notes and click track, transposing and validating it give what they give for that file once it has been encoded and decoded (apart from the hex column and lengths of the listing), and leave it as it was. Encoding an event with a delta too large for a MIDI file is an error.',
  ['inputs'], 'every sequence of events', 'The tests make a few events of each kind and encode them one by one.',
  ['midi/events/meta/metaevent.go', 'midi/events/midi/midievent.go', 'midi/events/sysex/sysex.go', 'midi/MThd.go', 'midi/MTrk.go', 'encoding/midi/encoder.go'], [('MakeMThd, NewMTrk', 'midi/MThd.go, midi/MTrk.go'), ('Make... of each event', 'midi/events/'), ('EncodeMTrk', 'encoding/midi/encoder.go')],
  'A case is a generated file that is made event by event, or one event with a delta over 28 bits; the enumerated files of C01 as well. Non-trivial: as for C01.', 'property-based testing: differential against the decoder and a reference parser', 'Each event is made with the bytes that it would have in a file. Values out of range are left to C06 and C25.', ['encoded bytes', 'output of every operation'])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            for y in x['files']:
                if not os.path.exists('/repo/' + y):
                    print('no such file', x['id'], y)
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['quant']},
                                'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mechanism']],
                                                                        'observe_at': x['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    with open(os.path.join(HERE, 'checks.json'), 'w') as f:
        json.dump({x['id']: dict(rule=x['rule'], assumptions=[x['note']], **x['check']) for x in P}, f, indent=1)
        f.write('\n')
    checks = [{'property': x['id'], 'quick_cmd': './check ' + x['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + x['id'],
               'technique': x['technique'], 'level': 'exploration', 'level_note': x['note']} for x in P]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': [],
                   'notes': 'No hooks in /repo: the checks use its public packages and the built command. See DESIGN.md.'}, f, indent=1)
        f.write('\n')


main()
