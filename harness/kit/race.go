package kit

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

// With the race detector on, its reports are the oracle of property C27: they
// go to a file (GORACE log_path), which is read after every case.

// RaceProp is the property that is decided by the race detector alone.
const RaceProp = "C27"

var raceOff int64

// newRaces returns what the race detector has reported since the last call.
func newRaces() string {
	if !Race {
		return ""
	}
	base := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			base = f[len("log_path="):]
		}
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", base, os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= raceOff {
		return ""
	}
	b := make([]byte, st.Size()-raceOff)
	n, _ := f.ReadAt(b, raceOff)
	raceOff += int64(n)
	return string(b[:n])
}

var accessHdr = regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic read|[Aa]tomic write) at 0x[0-9a-f]+ by [^\n]*:\n((?:  [^\n]*\n)+)`)

// racesIn splits reports into those about neffos and others.
func racesIn(log string) (neffos, other []string) {
	for _, rep := range strings.Split(log, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		hit := false
		for _, m := range accessHdr.FindAllStringSubmatch(rep, -1) {
			// the innermost frame that is neither of the runtime nor of the standard library
			for _, line := range strings.Split(m[1], "\n") {
				if !strings.HasPrefix(line, "  ") || strings.HasPrefix(line, "   ") {
					continue
				}
				fn := strings.TrimSpace(line)
				if strings.Contains(fn, "kataras/neffos") {
					hit = true
					break
				}
				if strings.HasPrefix(fn, "verif/") || strings.Contains(strings.SplitN(fn, "/", 2)[0], ".") && strings.Contains(fn, "/") {
					break
				}
			}
		}
		if hit {
			neffos = append(neffos, strings.TrimSpace(rep))
		} else {
			other = append(other, strings.TrimSpace(rep))
		}
	}
	return
}

// noteRaces records races of the case that just ended.
func (r *runner) noteRaces(plan []byte) {
	log := newRaces()
	if log == "" {
		return
	}
	in, other := racesIn(log)
	r.mu.Lock()
	defer r.mu.Unlock()
	switch {
	case len(in) > 0 && r.st.Violation == "":
		r.plan = plan
		r.st.ViolatedRuns++
		r.st.Deadlock = true // shrunk by the driver
		r.st.Violation = in[0]
	case len(other) > 0 && len(in) == 0:
		r.st.Inconclusive = "a data race outside of neffos:\n" + other[0]
	}
}
