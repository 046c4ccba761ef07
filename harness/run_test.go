package verifharness

import "testing"

func TestRun(t *testing.T) { runProperty(t) }
