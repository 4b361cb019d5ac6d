package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// W is the context of one worker process: it enumerates its share of the
// space of one property and records what it saw.
type W struct {
	Prop, Tier string
	Shard, N   int

	only string // "suite|case": run this case only

	idx         int64
	evals       int64 // cases executed
	states      int64 // distinct states (state-space explorations)
	transitions int64
	traces      int64 // model traces replayed on the implementation
	distinct    map[uint64]struct{}
	stateSet    map[uint64]struct{}
	samples     []string
	viols       []Viol
	notes       map[string]int64
	exhaustive  bool
	deadline    time.Time

	curSuite atomic.Value // string
	curID    atomic.Value // func() string
	curStart atomic.Int64
	limit    atomic.Int64 // seconds a single case may take
	trace    []byte       // mmap'ed: case being run (crash attribution)
	outPath  string
	stop     bool

	polled    time.Time
	foundFile string          // created when a violation is seen
	known     map[string]bool // signatures of the known findings of this property
}

type Viol struct {
	Suite, Case, Sig, Msg string
	Shard                 int
}

type Result struct {
	Evals, States, Transitions, Traces int64
	Distinct, StateSet                 []uint64
	Samples                            []string
	Viols                              []Viol
	Notes                              map[string]int64
	Exhaustive                         bool
}

const maxDistinct = 2000000

// caseError carries a signature used to recognise known findings.
type caseError struct{ sig, msg string }

func (e *caseError) Error() string { return e.msg }

func bad(sig, format string, a ...interface{}) error {
	return &caseError{sig: sig, msg: fmt.Sprintf(format, a...)}
}

func (w *W) Quick() bool { return w.Tier != "thorough" }

// Expired tells whether the enumeration must end: time or memory is used up, or a violation was
// found (by any worker) long enough ago for the others to have had their chance to add to it.
func (w *W) Expired() bool {
	if w.stop {
		return true
	}
	now := time.Now()
	if now.Sub(w.polled) > time.Second {
		w.polled = now
		if w.foundFile != "" {
			if st, err := os.Stat(w.foundFile); err == nil && now.Sub(st.ModTime()) > afterFound {
				w.stop = true
			}
		}
		if rss() > maxRSS {
			w.stop = true
			w.notes["stopped_for_memory"]++
		}
	}
	if w.stop || now.After(w.deadline) {
		w.exhaustive = false
		return true
	}
	return false
}

const (
	afterFound = 40 * time.Second
	maxRSS     = 3300 << 20
)

// rss is the resident memory of this process in bytes.
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// cpu is the processor time this process has used.
func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Outcome records a distinct observed behaviour.
func (w *W) Outcome(parts ...interface{}) {
	if len(w.distinct) >= maxDistinct {
		return
	}
	h := newHash()
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.str(x)
		case []byte:
			h.bytes(x)
		case int:
			h.u64(uint64(x))
		case uint64:
			h.u64(x)
		case bool:
			if x {
				h.u64(1)
			} else {
				h.u64(0)
			}
		default:
			h.str(fmt.Sprint(x))
		}
	}
	w.distinct[uint64(h)] = struct{}{}
}

func (w *W) State(h uint64) { w.stateSet[h] = struct{}{} }

func (w *W) Sample(format string, a ...interface{}) {
	if len(w.samples) < 6 {
		w.samples = append(w.samples, fmt.Sprintf(format, a...))
	}
}

func (w *W) Note(k string, n int64) { w.notes[k] += n }

// Mine tells whether a coarse work item belongs to this shard.
func (w *W) Mine(i int) bool { return w.only != "" || i%w.N == w.Shard }

// Only returns the case id to replay in this suite ("" and false otherwise).
func (w *W) Only(suite string) (string, bool) {
	if w.only == "" {
		return "", false
	}
	p := strings.SplitN(w.only, "|", 2)
	if p[0] == suite {
		return p[1], true
	}
	return "", false
}

// Replaying tells whether only one case is to be run.
func (w *W) Replaying() bool { return w.only != "" }

// Case runs one case of an enumeration sharded by case number.
func (w *W) Case(suite string, id func() string, run func() error) {
	w.idx++
	if w.only != "" {
		if !strings.HasPrefix(w.only, suite+"|") || w.only != suite+"|"+id() {
			return
		}
	} else if int(w.idx%int64(w.N)) != w.Shard || w.stop {
		return
	}
	if w.idx&63 < int64(w.N) && w.Expired() {
		w.stop = true
		return
	}
	w.Exec(suite, id, run)
}

// CaseN is Case for enumerations whose length may differ between workers: it is sharded by n.
func (w *W) CaseN(suite string, n int, id func() string, run func() error) {
	if w.only != "" {
		if w.only != suite+"|"+id() {
			return
		}
	} else if n%w.N != w.Shard || w.Expired() {
		return
	}
	w.Exec(suite, id, run)
}

// slowLog names a file to which cases that take long are appended
var slowLog = os.Getenv("VF_SLOW")

// Exec runs one case unconditionally.
func (w *W) Exec(suite string, id func() string, run func() error) {
	w.evals++
	w.curSuite.Store(suite)
	w.curID.Store(id)
	w.curStart.Store(time.Now().UnixNano())
	if w.trace != nil {
		s := suite + "|" + id()
		if len(s) > len(w.trace)-8 {
			s = s[:len(w.trace)-8]
		}
		binary.LittleEndian.PutUint64(w.trace, uint64(len(s)))
		copy(w.trace[8:], s)
	}
	err := protect(run)
	if slowLog != "" {
		if d := time.Since(time.Unix(0, w.curStart.Load())); d > 3*time.Second {
			if f, e := os.OpenFile(slowLog, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644); e == nil {
				fmt.Fprintf(f, "%s %s %.1f s of %d: %s|%s\n", w.Prop, w.Tier, d.Seconds(), w.limit.Load(), suite, trunc(id(), 120))
				f.Close()
			}
		}
	}
	w.curStart.Store(0)
	if err != nil {
		sig, msg := "fail", err.Error()
		if ce, ok := err.(*caseError); ok {
			sig = ce.sig
		}
		w.Violate(suite, id(), sig, msg)
	} else if len(w.samples) < 3 {
		w.samples = append(w.samples, suite+"|"+trunc(id(), 300))
	}
}

func (w *W) Violate(suite, id, sig, msg string) {
	if w.foundFile != "" && !w.known[sig] {
		if f, err := os.OpenFile(w.foundFile, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644); err == nil {
			f.Close()
		}
	}
	n, m := 0, 0
	for _, v := range w.viols {
		if v.Sig == sig {
			m++
			if v.Suite == suite {
				n++
			}
		}
	}
	w.Note("violating_cases", 1)
	if n >= 3 || m >= 12 {
		return
	}
	w.viols = append(w.viols, Viol{Suite: suite, Case: id, Sig: sig, Msg: trunc(msg, 2000), Shard: w.Shard})
	if len(w.viols) >= 40 {
		w.stop = true
		w.exhaustive = false
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// protect runs f and turns a panic into an error.
func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = bad("panic", "panic: %v\n%s", r, shortStack())
		}
	}()
	return f()
}

func shortStack() string {
	pc := make([]uintptr, 40)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	var out []string
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "runtime.") {
			out = append(out, fmt.Sprintf("  %s %s:%d", filepath.Base(f.Function), filepath.Base(f.File), f.Line))
		}
		if !more || len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (w *W) result() *Result {
	r := &Result{Evals: w.evals, States: w.states, Transitions: w.transitions, Traces: w.traces,
		Samples: w.samples, Viols: w.viols, Notes: w.notes, Exhaustive: w.exhaustive}
	for h := range w.distinct {
		r.Distinct = append(r.Distinct, h)
	}
	for h := range w.stateSet {
		r.StateSet = append(r.StateSet, h)
	}
	return r
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path+".tmp", b, 0644)
	}
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write", path, err)
		os.Exit(2)
	}
}

// watchdog ends the process when a case does not terminate.  What counts is the processor time
// spent since the case began: on a loaded machine the wall clock says little.
func (w *W) watchdog() {
	var seen int64
	var seenCPU time.Duration
	for {
		time.Sleep(500 * time.Millisecond)
		st := w.curStart.Load()
		if st == 0 {
			continue
		}
		if st != seen {
			seen, seenCPU = st, cpu()
			continue
		}
		lim := time.Duration(w.limit.Load()) * time.Second
		wall := time.Since(time.Unix(0, st))
		if wall > lim && (cpu()-seenCPU > lim*8/10 || wall > 6*lim) && w.curStart.Load() == st {
			suite, _ := w.curSuite.Load().(string)
			id, _ := w.curID.Load().(func() string)
			v := Viol{Suite: suite, Case: id(), Sig: "hang",
				Msg: fmt.Sprintf("does not terminate within %d s", w.limit.Load()), Shard: w.Shard}
			writeJSON(w.outPath, &Result{Evals: w.evals, Viols: []Viol{v}})
			os.Exit(3)
		}
	}
}

func workerMain(prop, tier string, shard, n int, only, out, traceFile string, budget int) {
	f, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(maxRSS * 9 / 10)
	w := &W{Prop: prop, Tier: tier, Shard: shard, N: n, only: only, exhaustive: true,
		distinct: map[uint64]struct{}{}, stateSet: map[uint64]struct{}{}, notes: map[string]int64{},
		deadline: time.Now().Add(time.Duration(budget) * time.Second), outPath: out}
	w.limit.Store(20)
	w.known = map[string]bool{}
	for _, k := range strings.Fields(os.Getenv("VF_KNOWN")) {
		w.known[k] = true
	}
	if only == "" {
		w.foundFile = os.Getenv("VF_FOUND")
	}
	if traceFile != "" {
		fd, err := os.OpenFile(traceFile, os.O_RDWR|os.O_CREATE, 0644)
		if err == nil {
			fd.Truncate(1 << 16)
			w.trace, _ = syscall.Mmap(int(fd.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	go w.watchdog()
	if pf := os.Getenv("VF_PROF"); pf != "" {
		if fd, err := os.Create(fmt.Sprintf("%s.%d", pf, shard)); err == nil {
			pprof.StartCPUProfile(fd)
			defer pprof.StopCPUProfile()
		}
	}
	f(w)
	writeJSON(out, w.result())
}

// ---------------------------------------------------------------------------
// small helpers

type fnv uint64

func newHash() fnv { return 14695981039346656037 }
func (h *fnv) b(c byte) {
	*h = (*h ^ fnv(c)) * 1099511628211
}
func (h *fnv) u64(x uint64) {
	for i := 0; i < 8; i++ {
		h.b(byte(x >> (8 * i)))
	}
}
func (h *fnv) bytes(b []byte) {
	h.u64(uint64(len(b)))
	for _, c := range b {
		h.b(c)
	}
}
func (h *fnv) str(s string) { h.bytes([]byte(s)) }

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func isNilPtr(x interface{}) bool {
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}
