//go:build race

package mck

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
)

// RaceDetector says whether the race detector is on.
const RaceDetector = true

var racesSeen atomic.Int64

// raceReport returns the report of a race found since the last call. The
// report must be about the code under test: the harness has none.
func raceReport() string {
	n := int64(runtime.RaceErrors())
	if n == 0 {
		return ""
	}
	if old := racesSeen.Swap(n); old >= n {
		return ""
	}
	all := ""
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_SCRATCH"), "race.*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		all += string(b)
	}
	for _, rep := range strings.Split(all, "==================") {
		if strings.Contains(rep, RepoMark) {
			return rep
		}
	}
	fmt.Fprintln(os.Stderr, "mck: harness panic: data race outside the code under test\n"+all)
	os.Exit(2)
	return ""
}
