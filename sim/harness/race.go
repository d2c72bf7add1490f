package harness

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"spagosim/vsim"
)

// The race detector writes its reports to a file. Those about the memory of
// the harness itself, which needs no synchronisation because simulated
// goroutines run one at a time, do not count.
var raceLog struct {
	seen   int
	offset int64
}

const library = "github.com/nlpodyssey/spago/"

// accessor returns the innermost function of the library or the simulator
// making an access.
func accessor(block string) string {
	lines := strings.Split(block, "\n")
	for _, l := range lines[1:] {
		f := strings.TrimSpace(l)
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "      ") || f == "" {
			continue
		}
		if strings.HasPrefix(f, library) || strings.HasPrefix(f, "spagosim/") || strings.HasPrefix(f, "main.") {
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return f
		}
	}
	return ""
}

// newRaces returns a violation if the detector found races of the library
// since the last call.
func newRaces() *Violation {
	n := vsim.RaceErrors()
	if n == raceLog.seen {
		return nil
	}
	count := n - raceLog.seen
	raceLog.seen = n
	path := ""
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(o, "log_path="); ok {
			path = fmt.Sprintf("%s.%d", v, os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil || int64(len(b)) < raceLog.offset {
		return bad("race", "%d data races (no report: %v)", count, err)
	}
	text := string(b[raceLog.offset:])
	raceLog.offset = int64(len(b))
	reports := strings.Split(text, "WARNING: DATA RACE\n")[1:]
	if len(reports) == 0 {
		return bad("race", "%d data races without a report", count)
	}
	for _, r := range reports {
		if i := strings.Index(r, "\n=================="); i >= 0 {
			r = r[:i]
		}
		blocks := strings.SplitN(r, "\n\n", 3)
		if len(blocks) < 2 {
			continue
		}
		a, b := accessor(blocks[0]), accessor(blocks[1])
		if strings.HasPrefix(a, "spagosim/") || strings.HasPrefix(b, "spagosim/") || a == "" && b == "" {
			continue
		}
		pair := []string{strings.TrimPrefix(a, library), strings.TrimPrefix(b, library)}
		sort.Strings(pair)
		return bad("race "+strings.Join(pair, " and "), "data race between %s and %s:\n%s", pair[0], pair[1], r)
	}
	return nil
}
