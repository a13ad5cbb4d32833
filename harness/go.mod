module midiasmverif

go 1.23

require (
	github.com/transcriptaze/midiasm v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/transcriptaze/midiasm => /repo
