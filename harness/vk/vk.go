// Package vk is the runtime-monitoring kit shared by every check: it hands out
// seeded randomness, counts what the monitors observed, records violations as
// they happen (so a crash cannot lose them) and watches for hangs.
package vk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// C is the context of one check run.
type C struct {
	ID       string
	Seed     int64
	Thorough bool
	T        *testing.T

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counters   map[string]int64
	kinds      map[string]int64
	samples    []string
	sampleSeen int64
	progress   atomic.Int64
	rule       string
	viol       int
	violSeen   map[string]int
	known      []string
	out        *os.File

	holdMu sync.Mutex
	holdN  uint64
	holds  [holdSlots]held
}

const maxViolations = 8

// libPrefix marks frames of the code under test.
const libPrefix = "flychain/"
const harnessPrefix = "verifharness/"

// Run executes the body as the check for property id.
func Run(t *testing.T, id, rule string, body func(c *C)) {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	c := &C{
		ID: id, Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough", T: t,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, kinds: map[string]int64{},
		rule: rule, violSeen: map[string]int{},
	}
	if p := os.Getenv("VERIF_OUT"); p != "" {
		f, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			t.Fatal(err)
		}
		c.out = f
	}
	stop := c.startWatchdog()
	defer stop()
	completed := false
	func() {
		defer func() {
			if completed {
				return
			}
			r := recover()
			if r == stopRun {
				return // too many violations
			}
			if r == nil {
				c.finish(false) // runtime.Goexit (t.FailNow)
				return
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, false)]
			if blame(r, string(buf)) {
				c.record("panic: "+firstLine(fmt.Sprint(r)), "uncaught panic %v in or over the code under test\n%s", r, buf)
				return
			}
			panic(fmt.Sprintf("%v\n%s", r, buf))
		}()
		body(c)
		c.recheckAll()
		completed = true
	}()
	c.finish(completed)
	if c.viol > 0 {
		t.Errorf("%d violations of %s", c.viol, id)
	}
}

// Mixed runs fn for the indices below n: the first half by eight goroutines at
// once, from a cold start, the rest one after the other.
func (c *C) Mixed(n int, fn func(i int)) {
	var (
		wg    sync.WaitGroup
		next  atomic.Int64
		stop  atomic.Bool
		other atomic.Pointer[string]
	)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				stop.Store(true)
				if r == stopRun {
					return
				}
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				if blame(r, string(buf)) {
					c.record("panic: "+firstLine(fmt.Sprint(r)), "uncaught panic %v in or over the code under test\n%s", r, buf)
					return
				}
				t := fmt.Sprintf("%v\n%s", r, buf)
				other.Store(&t)
			}()
			for i := next.Add(1) - 1; i < int64(n/2) && !stop.Load(); i = next.Add(1) - 1 {
				fn(int(i))
			}
		}()
	}
	wg.Wait()
	if t := other.Load(); t != nil {
		panic(*t)
	}
	if stop.Load() {
		panic(stopRun)
	}
	for i := n / 2; i < n; i++ {
		fn(i)
	}
}

var stopRun = new(int)

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

// N picks the case count for the tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Rng derives an independent random stream for a labelled case.
func (c *C) Rng(label string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", c.ID, label, i, c.Seed)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Eval counts one monitored execution. key identifies the behaviour observed;
// distinct keys are counted. An empty key marks a trivial case.
func (c *C) Eval(key string) {
	c.progress.Add(1)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key == "" {
		return
	}
	k := 0
	for k < len(key) && k < 24 && (key[k]|32 >= 'a' && key[k]|32 <= 'z' || key[k] == ' ' || key[k] == '.') {
		k++
	}
	if kind := strings.TrimSpace(key[:k]); kind != "" && (len(c.kinds) < 200 || c.kinds[kind] > 0) {
		c.kinds[strings.Clone(kind)]++
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	c.distinct[h.Sum64()] = struct{}{}
}

// EvalN counts n executions sharing a key prefix (each distinct by index).
func (c *C) Count(name string, n int) {
	c.progress.Add(1)
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *C) Max(name string, n int) {
	c.mu.Lock()
	if c.counters[name] < int64(n) {
		c.counters[name] = int64(n)
	}
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file (reservoir of 8,
// first ones preferred at power-of-four positions).
func (c *C) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sampleSeen++
	n := c.sampleSeen
	if n == 1 || n == 5 || n == 21 || n == 85 || n == 341 || n == 1365 || n == 5461 || n == 21845 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		c.samples = append(c.samples, s)
	}
}

// Violate records a violation. sig groups equal failures (only the first of a
// group is kept in full).
func (c *C) Violate(sig string, format string, args ...interface{}) {
	if c.record(sig, format, args...) {
		panic(stopRun)
	}
}

// ViolateAsync is Violate for goroutines other than the check's own.
func (c *C) ViolateAsync(sig string, format string, args ...interface{}) {
	c.record(sig, format, args...)
}

func (c *C) record(sig, format string, args ...interface{}) (tooMany bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violSeen[sig]++
	if c.violSeen[sig] > 1 {
		return len(c.violSeen) >= maxViolations || c.violSeen[sig] > 200
	}
	c.viol++
	c.emit(map[string]interface{}{"kind": "violation", "sig": sig, "detail": clip(fmt.Sprintf(format, args...))})
	return c.viol >= maxViolations
}

func clip(s string) string {
	if len(s) > 60000 {
		s = s[:20000] + " ... " + s[len(s)-20000:]
	}
	return s
}

// held is a value the library handed out, beside what it was then.
type held struct {
	what string
	live interface{}
	then string
}

const holdSlots = 512

// Hold keeps a value the library returned ([]byte, string, *big.Int) and looks
// at it again after many further calls, and at the end: a result belongs to the
// caller and must not change under later use of the library.
func (c *C) Hold(what string, v interface{}) {
	h := held{what, v, heldText(v)}
	c.holdMu.Lock()
	c.holdN++
	k := int(c.holdN * 2654435761 >> 9 % holdSlots)
	var old held
	old, c.holds[k] = c.holds[k], h
	c.holdMu.Unlock()
	c.recheck(old)
}

func (c *C) recheck(h held) {
	if h.what == "" {
		return
	}
	if now := heldText(h.live); now != h.then {
		c.record("held "+h.what, "a result of %s was %q and is %q after further calls", h.what, h.then, now)
	}
}

func heldText(v interface{}) string {
	switch v := v.(type) {
	case []byte:
		return string(v)
	case string:
		return strings.Clone(v)
	case *big.Int:
		return v.Text(16)
	}
	panic(fmt.Sprintf("Hold of %T", v))
}

func (c *C) recheckAll() {
	for _, h := range c.holds {
		c.recheck(h)
	}
}

// Tail is a length with a heavy tail: below small in most cases, now and then
// anything up to max on a logarithmic scale.
func Tail(r *rand.Rand, rare, small, max int) int {
	if r.Intn(rare) != 0 {
		return r.Intn(small)
	}
	return int(math.Exp(r.Float64() * math.Log(float64(max))))
}

// Violations reports how many have been recorded.
func (c *C) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.viol
}

// Die records a violation and ends the process at once: for states (stuck
// goroutines, exhausted budgets) from which the run cannot continue.
func (c *C) Die(sig string, format string, args ...interface{}) {
	c.record(sig, format, args...)
	c.finish(false)
	os.Exit(1)
}

// HarnessError ends the process with an inconclusive result.
func (c *C) HarnessError(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	c.mu.Lock()
	c.emit(map[string]interface{}{"kind": "harness_error", "detail": fmt.Sprintf(format, args...)})
	c.mu.Unlock()
	os.Exit(4)
}

func (c *C) emit(v interface{}) {
	b, _ := json.Marshal(v)
	b = append(b, '\n')
	if c.out != nil {
		c.out.Write(b)
	} else {
		os.Stderr.Write(b)
	}
}

// observed are the counters, with the most frequent kinds of executions.
func (c *C) observed() map[string]int64 {
	var kinds []string
	for k := range c.kinds {
		kinds = append(kinds, k)
	}
	sort.Slice(kinds, func(i, j int) bool {
		if a, b := c.kinds[kinds[i]], c.kinds[kinds[j]]; a != b {
			return a > b
		}
		return kinds[i] < kinds[j]
	})
	out := map[string]int64{"kinds of executions": int64(len(kinds))}
	for i, k := range kinds {
		if i == 16 {
			break
		}
		out["executions: "+k] = c.kinds[k]
	}
	for k, n := range c.counters {
		out[k] = n
	}
	return out
}

func (c *C) finish(completed bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.emit(map[string]interface{}{
		"kind": "result", "completed": completed, "evaluations": c.evals,
		"distinct": len(c.distinct), "rule": c.rule, "samples": c.samples,
		"counters": c.observed(), "violations": c.viol, "viol_counts": c.violSeen,
	})
}

// PanicInLibrary decides, from the stack of a panicking goroutine, whether the
// panic concerns the code under test: it was raised inside a call into it, or
// in a callback it made.
func PanicInLibrary(stack string) bool {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
			break
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, libPrefix) || strings.HasPrefix(l, "main.") {
			return true
		}
	}
	return false
}

// blame decides whether an uncaught panic is the code under test's doing: one
// that passed through it, or a run-time error of the monitor over what it was
// handed (on the healthy tree there are none).
func blame(r interface{}, stack string) bool {
	if _, ok := r.(runtime.Error); ok {
		return true
	}
	return PanicInLibrary(stack)
}

// Panics runs fn and reports a recovered panic, if any, with its stack.
func Panics(fn func()) (val interface{}, stack string) {
	done := false
	defer func() {
		if done {
			return
		}
		val = recover()
		if val == nil {
			val = "nil panic or Goexit"
		}
		if val == interface{}(stopRun) {
			panic(stopRun)
		}
		buf := make([]byte, 1<<14)
		stack = string(buf[:runtime.Stack(buf, false)])
	}()
	fn()
	done = true
	return nil, ""
}

// NoPanic runs fn; a panic is a violation.
func (c *C) NoPanic(desc string, fn func()) bool {
	v, st := Panics(fn)
	if v == nil {
		return true
	}
	if !blame(v, st) {
		panic(fmt.Sprintf("harness panic in %s: %v\n%s", desc, v, st))
	}
	c.Violate("panic "+firstLine(fmt.Sprint(v)), "%s panicked: %v\n%s", desc, v, st)
	return false
}

// Never is NoPanic for calls during which the code under test calls methods of
// the harness that panic on purpose: it must contain them.
func (c *C) Never(desc string, fn func()) bool {
	v, st := Panics(fn)
	if v == nil {
		return true
	}
	if v == stopRun {
		panic(v)
	}
	c.Violate("panic "+firstLine(fmt.Sprint(v)), "%s panicked: %v\n%s", desc, v, st)
	return false
}

// ---------------------------------------------------------------------------
// hang watchdog

type opInfo struct {
	desc string
	cpu  time.Duration
}

var curOp atomic.Pointer[opInfo]

// Begin marks the start of an operation that ordinarily takes microseconds of
// CPU. End clears it. If the process burns cpuBudget of CPU time within it the
// watchdog reports a hang. CPU time, unlike wall time, does not run while the
// machine is busy with something else.
func Begin(format string, args ...interface{}) {
	curOp.Store(&opInfo{fmt.Sprintf(format, args...), cpuTime()})
}
func End() { curOp.Store(nil) }

const cpuBudget = 40 * time.Second

// spinBudget is the CPU time after which a run without progress counts as
// livelocked (single executions take milliseconds, a second at the very most).
const spinBudget = 75 * time.Second

// hot returns the goroutines that are running (not parked) in the code under
// test.
func (c *C) hot(dump string) string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 || !(strings.Contains(g[:nl], "[running") || strings.Contains(g[:nl], "[runnable")) {
			continue
		}
		body := g[nl:]
		if k := strings.Index(body, "\ncreated by"); k >= 0 {
			body = body[:k]
		}
		if strings.Contains(body, "\n"+libPrefix) || strings.Contains(body, "\nmain.") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var owed atomic.Pointer[string]

// Owed declares that the code under test owes the caller a wake-up: if every
// goroutine parks for good while it is outstanding, that is a violation even
// though no frame of the code under test is on any stack.
func Owed(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	owed.Store(&s)
}
func Paid() { owed.Store(nil) }

// Stacks returns the dump of every goroutine.
func Stacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

func (c *C) startWatchdog() func() {
	quit := make(chan struct{})
	go c.watchdog(quit)
	return func() { close(quit) }
}

func (c *C) watchdog(quit chan struct{}) {
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	var last string
	same, hot := 0, 0
	lastProg, progCPU := int64(-1), cpuTime()
	stall, stallProg, stallSig, stallCPU := 0, int64(-1), "", cpuTime()
	for {
		select {
		case <-quit:
			return
		case <-tick.C:
		}
		if op := curOp.Load(); op != nil {
			if used := cpuTime() - op.cpu; used > cpuBudget {
				dump := Stacks()
				if curOp.Load() != op {
					continue
				}
				c.Die("hang: "+op.desc, "operation %s used %v of CPU time without finishing\n%s", op.desc, used, trunc(dump, 6000))
			}
		}
		dump := Stacks()
		// Nothing observed for a long stretch of CPU time while the code under
		// test keeps running: it spins.
		if p := c.progress.Load(); p != lastProg || c.hot(dump) == "" {
			if p != lastProg {
				lastProg, progCPU = p, cpuTime()
			}
			hot = 0
		} else if hot++; hot >= 8 && cpuTime()-progCPU > spinBudget {
			c.Die("livelock", "the code under test used %v of CPU time without any execution completing\n%s", cpuTime()-progCPU, trunc(c.hot(dump), 6000))
		}
		// Idle for two minutes of ticks, with a call into the code under test
		// blocked at the same place throughout: only sleepers or timers are
		// left to wake it, and none of them did.
		if p, stuck := c.progress.Load(), idleIn(dump); p == stallProg && stuck != "" && stuck == stallSig && cpuTime()-stallCPU < stallTicks*time.Second/4 {
			if stall++; stall >= stallTicks {
				c.Die("stalled", "nothing has completed for %d s while the process was idle and these calls stayed blocked\n%s", stall, trunc(dump, 8000))
			}
		} else {
			stall, stallProg, stallSig, stallCPU = 0, p, stuck, cpuTime()
		}
		parked, sig, lib := allParked(dump)
		if !parked {
			same = 0
			last = ""
			continue
		}
		if sig == last {
			same++
		} else {
			same = 1
			last = sig
		}
		if same >= 6 {
			if lib {
				c.Die("deadlock", "every goroutine is parked and nothing can wake them\n%s", trunc(dump, 8000))
			}
			if o := owed.Load(); o != nil {
				c.Die("never woken: "+*o, "every goroutine is parked waiting for: %s\n%s", *o, trunc(dump, 4000))
			}
			c.Die("never woken", "every goroutine is parked: the workload waits for something the code under test owes it\n%s", trunc(dump, 8000))
		}
	}
}

const stallTicks = 120

// idleIn returns the goroutines blocked inside the code under test (numbers and
// positions), or nothing if any goroutine can run or waits for the system.
func idleIn(dump string) string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		g = strings.TrimSpace(g)
		nl := strings.IndexByte(g, '\n')
		if nl < 0 || strings.Contains(g[nl:], ".(*C).watchdog(") {
			continue
		}
		head, body := g[:nl], g[nl:]
		if strings.Contains(body, "os/signal") {
			continue
		}
		for _, st := range []string{"[running", "[runnable", "[syscall", "[IO wait"} {
			if strings.Contains(head, st) {
				return ""
			}
		}
		if k := strings.Index(body, "\ncreated by"); k >= 0 {
			body = body[:k]
		}
		if k := strings.IndexByte(head, '['); k > 0 && (strings.Contains(body, "\n"+libPrefix) || strings.Contains(body, "\nmain.")) {
			out = append(out, head[:k]+body)
		}
	}
	return strings.Join(out, "\n\n")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// allParked examines a goroutine dump: whether every goroutine but the
// watchdog is blocked on a channel, lock or condition (so only another
// goroutine could wake it), a signature of the state, and whether the code
// under test is involved.
func allParked(dump string) (parked bool, sig string, lib bool) {
	var sb strings.Builder
	for _, g := range strings.Split(dump, "\n\n") {
		g = strings.TrimSpace(g)
		if g == "" {
			continue
		}
		nl := strings.IndexByte(g, '\n')
		if nl < 0 {
			continue
		}
		head, body := g[:nl], g[nl:]
		if strings.Contains(body, ".(*C).watchdog(") {
			continue
		}
		i, j := strings.IndexByte(head, '['), strings.LastIndexByte(head, ']')
		if i < 0 || j < i {
			return false, "", false
		}
		st := head[i+1 : j]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		st = strings.TrimSuffix(strings.TrimSpace(st), " (durable)")
		switch {
		case strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "synctest"), strings.HasPrefix(st, "select"),
			strings.HasPrefix(st, "sync."), st == "semacquire":
		case strings.HasPrefix(st, "syscall"):
			if strings.Contains(body, "os/signal") {
				continue
			}
			return false, "", false
		default:
			return false, "", false
		}
		fmt.Fprintf(&sb, "%s|%s\n", st, stripArgs(body))
		// The goroutine's own frames; "created by" lines do not count.
		if k := strings.Index(body, "\ncreated by"); k >= 0 {
			body = body[:k]
		}
		if strings.Contains(body, "\n"+libPrefix) || strings.Contains(body, "\nmain.") {
			lib = true
		}
	}
	return true, sb.String(), lib
}

func stripArgs(s string) string { return s }

// Yield perturbs the schedule.
func Yield(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := 0; i < r.Intn(8); i++ {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(r.Intn(40)) * time.Microsecond)
	}
}
