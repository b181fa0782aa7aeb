package ai

import (
	"os"
	"runtime/debug"
	"testing"
)

func TestMain(m *testing.M) {
	DebugJoin = os.Getenv("DJ") != ""
	debug.SetGCPercent(800)
	os.Exit(m.Run())
}
