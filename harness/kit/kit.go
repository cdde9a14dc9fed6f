// Package kit runs generated cases, counts them, and records violations.
//
// A case ("plan") is plain data: it is drawn by rapid before anything runs and
// is the replay file when the case fails.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Result of executing one plan.
type Result struct {
	Violations []string // empty: the property held
	NonTrivial bool
	Labels     []string
	mu         sync.Mutex
}

// Violatef adds a violation.
func (r *Result) Violatef(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, fmt.Sprintf(format, args...))
	}
}

// Label classifies the case.
func (r *Result) Label(l string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Labels = append(r.Labels, l)
}

// Stats is what a worker process reports to the driver.
type Stats struct {
	Property     string           `json:"property"`
	Evaluations  int              `json:"evaluations"`
	NonTrivial   int              `json:"nontrivial"`
	Distinct     []uint64         `json:"distinct"` // hashes of the distinct non-trivial plans
	Labels       map[string]int   `json:"labels"`
	Samples      []string         `json:"samples"`
	Violation    string           `json:"violation,omitempty"`
	Plan         *json.RawMessage `json:"plan,omitempty"`
	ViolatedRuns int              `json:"violated_runs"`
	Deadlock     bool             `json:"deadlock,omitempty"`
	Inconclusive string           `json:"inconclusive,omitempty"`
	Done         bool             `json:"done"`
}

type runner struct {
	mu       sync.Mutex
	st       Stats
	distinct map[uint64]bool
	start    time.Time
	budget   time.Duration
	seq      atomic.Uint64
	cur      atomic.Pointer[[]byte]
	curStart atomic.Int64
	plan     []byte
	memAt    uint64
	memFull  bool
}

var statsPath = os.Getenv("VERIF_STATS")

// Prop is the property being checked (several properties share test functions).
var Prop = os.Getenv("VERIF_PROP")

// Thorough reports the tier.
var Thorough = os.Getenv("VERIF_TIER") == "thorough"

// crashFile is a shared mapping that holds the running plan, so that the
// driver finds it when a panic in some goroutine ends the process.
var crashFile = func() []byte {
	path := os.Getenv("VERIF_CRASH")
	if path == "" {
		return nil
	}
	f, err := os.Create(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	const size = 4 << 20
	if f.Truncate(size) != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}()

func notePlan(b []byte) {
	if crashFile == nil || len(b)+8 > len(crashFile) {
		return
	}
	binary.LittleEndian.PutUint64(crashFile, 0)
	copy(crashFile[8:], b)
	binary.LittleEndian.PutUint64(crashFile, uint64(len(b)))
}

func (r *runner) write() {
	r.st.Distinct = r.st.Distinct[:0]
	for h := range r.distinct {
		r.st.Distinct = append(r.st.Distinct, h)
	}
	sort.Slice(r.st.Distinct, func(i, j int) bool { return r.st.Distinct[i] < r.st.Distinct[j] })
	if r.plan != nil {
		raw := json.RawMessage(r.plan)
		r.st.Plan = &raw
	}
	b, err := json.Marshal(&r.st)
	if err != nil {
		fmt.Fprintln(os.Stderr, "kit: marshal stats:", err)
		os.Exit(2)
	}
	if statsPath != "" {
		if err := os.WriteFile(statsPath, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "kit:", err)
			os.Exit(2)
		}
	}
}

// Run draws plans with gen and executes them with exec.
func Run[P any](t *testing.T, id string, gen func(*rapid.T) P, exec func(*testing.T, P) *Result) {
	r := &runner{distinct: map[uint64]bool{}, start: time.Now(), budget: 10 * time.Minute}
	r.st.Property = id
	r.st.Labels = map[string]int{}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			r.budget = time.Duration(n) * time.Second
		}
	}
	go r.watchdog()

	one := func(p P) *Result {
		b, err := json.Marshal(p)
		if err != nil {
			t.Fatalf("kit: plan does not marshal: %v", err)
		}
		r.curStart.Store(time.Now().UnixNano())
		notePlan(b)
		r.cur.Store(&b)
		r.seq.Add(1)
		// Run the decoded copy: what is replayed is what was run.
		var q P
		if err := json.Unmarshal(b, &q); err != nil {
			t.Fatalf("kit: plan does not unmarshal: %v", err)
		}
		if Race {
			defer r.noteRaces(b) // (also when the testing package ends the test because of it)
		}
		res := exec(t, q)
		r.cur.Store(nil)
		if Prop == RaceProp {
			res.Violations = nil
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		r.st.Evaluations++
		for _, l := range res.Labels {
			r.st.Labels[l]++
		}
		if res.NonTrivial {
			r.st.NonTrivial++
			h := fnv.New64a()
			h.Write(b)
			k := h.Sum64()
			if !r.distinct[k] {
				r.distinct[k] = true
				if len(r.st.Samples) < 3 && len(r.distinct)%7 == 3 {
					s := string(b)
					if len(s) > 1500 {
						s = s[:1500] + "..."
					}
					r.st.Samples = append(r.st.Samples, s)
				}
			}
		}
		if len(res.Violations) > 0 {
			r.st.ViolatedRuns++
			if r.plan == nil || len(b) <= len(r.plan) {
				r.plan = b
				r.st.Violation = strings.Join(res.Violations, "\n")
			}
		}
		return res
	}

	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var file struct {
			Plan json.RawMessage `json:"plan"`
		}
		if err := json.Unmarshal(b, &file); err != nil {
			t.Fatal(err)
		}
		raw := []byte(file.Plan)
		defer r.write()
		n := 1
		if s := os.Getenv("VERIF_REPLAY_N"); s != "" {
			n, _ = strconv.Atoi(s)
		}
		for i := 0; i < n; i++ {
			var p P
			if err := json.Unmarshal(raw, &p); err != nil {
				t.Fatal(err)
			}
			if res := one(p); len(res.Violations) > 0 {
				fmt.Printf("REPLAY run %d violates %s:\n%s\n", i+1, id, strings.Join(res.Violations, "\n"))
				break
			}
		}
		r.st.Done = true
		r.write()
		return
	}

	defer func() {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.st.Done = true
		r.write()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if time.Since(r.start) > r.budget || r.full() {
			return // budget used up: not counted
		}
		p := gen(rt)
		if res := one(p); len(res.Violations) > 0 {
			rt.Fatalf("violation: %s", res.Violations[0])
		}
	})
}

// full reports whether the process holds too much memory to go on (goroutines
// that servers leave behind keep their case alive).
func (r *runner) full() bool {
	if n := r.seq.Load(); n%512 == 0 && n != r.memAt {
		r.memAt = n
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		r.memFull = ms.Sys-ms.HeapReleased > 3<<30
	}
	return r.memFull
}

var bubbleHdr = regexp.MustCompile(`^goroutine \d+(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\]]*)\]:`)

// watchdog looks for cases that stopped making progress in real time.
//
// A case whose goroutines are all blocked, at least one of them on a mutex
// (which simulated time does not see), in two stack dumps taken apart, is
// deadlocked: nothing outside the bubble can ever wake it. A case that has used
// a minute of processor time or a gigabyte of memory (cases take milliseconds
// and a few megabytes) goes round for ever. Anything else that takes too long
// is reported as inconclusive, not as a violation.
func (r *runner) watchdog() {
	var lastSeq uint64
	var lastSig string
	var cpu0 time.Duration
	var mem0 uint64
	stuck := 0
	over := func(cur []byte, what, dump string) {
		if len(dump) > 20000 {
			dump = dump[:20000]
		}
		r.mu.Lock()
		r.plan = cur
		r.st.ViolatedRuns++
		r.st.Evaluations++
		r.st.Deadlock = true
		r.st.Violation = what + "\n" + dump
		r.st.Done = true
		r.write()
		fmt.Println("kit: " + what)
		os.Exit(1)
	}
	for {
		time.Sleep(time.Second)
		cur := r.cur.Load()
		seq := r.seq.Load()
		if cur == nil || seq != lastSeq {
			lastSeq, lastSig, stuck = seq, "", 0
			cpu0, mem0 = cpuTime(), memUsed()
			continue
		}
		el := time.Duration(time.Now().UnixNano() - r.curStart.Load())
		if m := memUsed(); m > mem0+1<<30 {
			over(*cur, "the case does not come to rest: it used 1 GB of memory", "")
		}
		if el < 3*time.Second {
			continue
		}
		buf := make([]byte, 64<<20)
		buf = buf[:runtime.Stack(buf, true)]
		sig, dead, dump := analyse(string(buf))
		if dead && sig == lastSig {
			stuck++
		} else {
			stuck = 0
		}
		lastSig = sig
		if stuck >= 3 {
			over(*cur, "deadlock: every goroutine of the case is blocked, at least one on a lock:", dump)
		}
		if cpuTime() > cpu0+time.Minute {
			over(*cur, "the case does not come to rest: it used a minute of processor time", dump)
		}
		if el > 300*time.Second {
			r.mu.Lock()
			if len(dump) > 20000 {
				dump = dump[:20000]
			}
			r.st.Inconclusive = "case exceeded 300s of real time without deadlock proof\n" + string(*cur) + "\n" + dump
			r.plan = *cur
			r.write()
			fmt.Println("kit: inconclusive")
			os.Exit(2)
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func memUsed() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc + ms.StackInuse
}

// analyse picks the goroutines of the newest bubble out of a stack dump.
func analyse(all string) (sig string, dead bool, dump string) {
	gs := strings.Split(all, "\n\n")
	best := -1
	type g struct{ state, body string }
	by := map[int][]g{}
	for _, s := range gs {
		m := bubbleHdr.FindStringSubmatch(s)
		if m == nil {
			continue
		}
		i := strings.Index(m[1], "synctest bubble ")
		if i < 0 {
			continue
		}
		n, err := strconv.Atoi(strings.TrimRight(strings.Fields(m[1][i+len("synctest bubble "):])[0], ",]"))
		if err != nil {
			continue
		}
		by[n] = append(by[n], g{m[1], s})
		if n > best {
			best = n
		}
	}
	if best < 0 {
		return "", false, ""
	}
	locked := false
	dead = true
	var sigs []string
	for _, x := range by[best] {
		st := x.state
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		switch {
		case strings.HasPrefix(st, "sync.Mutex") || strings.HasPrefix(st, "sync.RWMutex") || strings.HasPrefix(st, "semacquire"):
			locked = true
		case strings.Contains(st, "durable") || strings.HasPrefix(st, "chan ") || strings.HasPrefix(st, "select") || strings.HasPrefix(st, "sync.") || strings.HasPrefix(st, "synctest") || strings.HasPrefix(st, "sleep"):
		default:
			dead = false
		}
		hdr := x.body
		if i := strings.IndexByte(hdr, ' '); i >= 0 {
			if j := strings.IndexByte(hdr[i+1:], ' '); j >= 0 {
				hdr = hdr[:i+1+j]
			}
		}
		lines := strings.SplitN(x.body, "\n", 6)
		if len(lines) > 1 {
			lines = lines[1:]
		}
		sigs = append(sigs, hdr+st+strings.Join(lines, ""))
		if len(dump) < 60000 {
			dump += x.body + "\n\n"
		}
	}
	sort.Strings(sigs)
	return strings.Join(sigs, "|"), dead && locked, dump
}

// Bubble runs f in a synctest bubble. Goroutines that are left blocked when f
// returns (neffos servers have no way to stop their loop) are tolerated. hung
// is true when f itself was blocked for ever.
func Bubble(t *testing.T, f func()) (hung bool, panicked any) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			switch {
			case strings.Contains(s, "main bubble goroutine has exited"):
			case strings.Contains(s, "all goroutines in bubble are blocked"):
				hung = true
			default:
				panicked = e
			}
		}
	}()
	var inner any
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				inner = fmt.Sprintf("%v\n%s", e, buf)
			}
		}()
		f()
	})
	return false, inner
}
