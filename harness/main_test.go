package harness

import "testing"

func TestVerif(t *testing.T) { run(t) }
