package mclock

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/common/mclock"
	"verifharness/vk"
)

// ------------------------------------------------------------------ C09

type mtimer struct {
	id       int
	at       mclock.AbsTime
	active   bool
	fired    int // times it has fired (observed)
	want     int // times it should have
	isChan   bool
	neg      bool
	t        mclock.Timer
	ch       <-chan mclock.AbsTime
	lastFire mclock.AbsTime
}

func simHistory(c *vk.C, n int) {
	r := c.Rng("sim", n)
	s := new(mclock.Simulated)
	var now mclock.AbsTime
	var timers []*mtimer
	var trace []string
	bad := func(sig string, a ...interface{}) {
		c.Violate(sig, "%s; history %d: %s", fmt.Sprintf(sig, a...), n, strings.Join(trace, " "))
	}
	unit := []time.Duration{1, time.Millisecond, time.Second, time.Hour}[r.Intn(4)]
	rd := func() time.Duration {
		switch r.Intn(12) {
		case 0:
			return 0
		case 1:
			return -time.Duration(r.Intn(5)) * unit
		}
		return time.Duration(r.Intn(20)) * unit
	}
	var firedNow []*mtimer
	running := false
	var schedule func(depth int) *mtimer
	schedule = func(depth int) *mtimer {
		m := &mtimer{id: len(timers), active: true}
		d := rd()
		m.at = now.Add(d)
		m.neg = d < 0
		kind := r.Intn(3)
		switch kind {
		case 0:
			m.isChan = true
			t := s.NewTimer(d)
			m.t, m.ch = t, t.C()
		case 1:
			m.isChan = true
			m.ch = s.After(d)
		default:
			act := r.Intn(6)
			m.t = s.AfterFunc(d, func() {
				m.fired++
				firedNow = append(firedNow, m)
				m.lastFire = s.Now()
				if !running {
					bad("callback ran outside Run")
				}
				if m.lastFire != now {
					bad("clock read %d inside a callback, want %d", m.lastFire, now)
				}
				if depth < 2 && act == 0 {
					schedule(depth + 1)
				}
				if act == 1 && len(timers) > 0 {
					o := timers[r.Intn(len(timers))]
					if o.t != nil {
						got := o.t.Stop()
						if got != o.active {
							bad("Stop inside callback returned %v, timer active: %v", got, o.active)
						}
						o.active = false
					}
				}
			})
		}
		trace = append(trace, fmt.Sprintf("t%d:k%d@%d", m.id, kind, m.at))
		timers = append(timers, m)
		return m
	}
	drain := func() {
		for _, m := range timers {
			if m.ch == nil {
				continue
			}
			for {
				select {
				case v := <-m.ch:
					m.fired++
					if !m.neg && v != m.at {
						bad("timer %d delivered time %d, its deadline was %d", m.id, v, m.at)
					}
					continue
				default:
				}
				break
			}
		}
	}
	run := func(d time.Duration) {
		trace = append(trace, fmt.Sprintf("run(%d)", d))
		now = now.Add(d)
		firedNow = nil
		for _, m := range timers {
			if m.active && m.at <= now {
				m.want++
				m.active = false
			}
		}
		running = true
		s.Run(d)
		running = false
		for i := 1; i < len(firedNow); i++ {
			if firedNow[i-1].at > firedNow[i].at {
				bad("timer due at %d fired before timer due at %d", firedNow[i-1].at, firedNow[i].at)
			}
		}
		drain()
	}
	check := func() {
		act := 0
		for _, m := range timers {
			if m.active {
				act++
			}
			if m.fired != m.want {
				bad("timer %d (due %d) fired %d times by time %d, want %d", m.id, m.at, m.fired, now, m.want)
			}
		}
		if got := s.ActiveTimers(); got != act {
			bad("ActiveTimers()=%d, want %d", got, act)
		}
		if got := s.Now(); got != now {
			bad("Now()=%d, want %d", got, now)
		}
	}
	steps := 5 + r.Intn(40)
	crowd := r.Intn(40) == 0 // hundreds of timers at once
	if crowd {
		steps *= 3
	}
	for i := 0; i < steps; i++ {
		vk.Begin("sim history %d: %s", n, strings.Join(trace, " "))
		switch k := r.Intn(12); {
		case k < 5:
			schedule(0)
			if crowd && r.Intn(4) == 0 {
				for j := r.Intn(100); j > 0; j-- {
					schedule(0)
				}
			}
		case k < 8:
			d := rd()
			if d < 0 {
				d = -d
			}
			run(d)
		case k < 10 && len(timers) > 0:
			m := timers[r.Intn(len(timers))]
			if m.t == nil {
				break
			}
			got := m.t.Stop()
			trace = append(trace, fmt.Sprintf("stop%d=%v", m.id, got))
			if got != m.active {
				bad("Stop returned %v, timer active: %v", got, m.active)
			}
			m.active = false
		case k < 11 && len(timers) > 0:
			m := timers[r.Intn(len(timers))]
			ct, ok := m.t.(mclock.ChanTimer)
			if !ok || !m.isChan {
				break
			}
			d := rd()
			trace = append(trace, fmt.Sprintf("reset%d(%d)", m.id, d))
			ct.Reset(d)
			m.at, m.active, m.neg = now.Add(d), true, d < 0
		default:
			s.WaitForTimers(s.ActiveTimers())
		}
		vk.End()
		check()
	}
	run(100 * time.Hour * 1000)
	check()
	c.Count("timers", len(timers))
	c.Eval(strings.Join(trace, " "))
	c.Sample("%s", strings.Join(trace, " "))
}

// Waiting operations: Sleep and WaitForTimers, exact at quiescence.
func simWaiters(t *testing.T, c *vk.C, n int) {
	synctest.Test(t, func(t *testing.T) {
		r := c.Rng("simwait", n)
		s := new(mclock.Simulated)
		var trace []string
		die := func(sig string, a ...interface{}) {
			c.Die(sig, "%s; script %d: %s\n%s", fmt.Sprintf(sig, a...), n, strings.Join(trace, " "), vk.Stacks())
		}
		type waiter struct {
			n    int
			done atomic.Bool
		}
		type sleeper struct {
			until mclock.AbsTime
			done  atomic.Bool
		}
		var ws []*waiter
		var ss []*sleeper
		var stops []mclock.Timer
		var chans []mclock.ChanTimer
		var now mclock.AbsTime
		for i := 0; i < 6+r.Intn(25); i++ {
			switch r.Intn(7) {
			case 5:
				trace = append(trace, "newtimer")
				ct := s.NewTimer(time.Duration(1 + r.Intn(20)))
				chans = append(chans, ct)
				stops = append(stops, ct)
			case 6:
				if len(chans) > 0 {
					trace = append(trace, "reset")
					ct := chans[r.Intn(len(chans))]
					if !ct.Stop() {
						select {
						case <-ct.C():
						default:
						}
					} else if r.Intn(2) == 0 {
						synctest.Wait()
					}
					ct.Reset(time.Duration(1 + r.Intn(20)))
				}
			case 0:
				w := &waiter{n: s.ActiveTimers() + r.Intn(4)}
				trace = append(trace, fmt.Sprintf("wait(%d)", w.n))
				ws = append(ws, w)
				go func() { s.WaitForTimers(w.n); w.done.Store(true) }()
			case 1:
				d := time.Duration(1 + r.Intn(20))
				sl := &sleeper{until: now.Add(d)}
				trace = append(trace, fmt.Sprintf("sleep(%d)", d))
				ss = append(ss, sl)
				go func() { s.Sleep(d); sl.done.Store(true) }()
			case 2:
				trace = append(trace, "afterfunc")
				more := r.Intn(4)
				stops = append(stops, s.AfterFunc(time.Duration(1+r.Intn(30)), func() {
					for j := 1; j < more; j++ {
						s.AfterFunc(time.Duration(j), func() {})
					}
				}))
			case 3:
				if len(stops) > 0 {
					trace = append(trace, "stop")
					stops[r.Intn(len(stops))].Stop()
				}
			case 4:
				d := time.Duration(r.Intn(10))
				trace = append(trace, fmt.Sprintf("run(%d)", d))
				now = now.Add(d)
				s.Run(d)
			}
			synctest.Wait()
			act := s.ActiveTimers()
			var keep []*waiter
			for _, w := range ws {
				if w.done.Load() {
					if act < w.n {
						die("WaitForTimers(%d) returned with %d timers", w.n, act)
					}
					continue
				}
				if act >= w.n {
					die("WaitForTimers(%d) still blocked with %d timers scheduled", w.n, act)
				}
				keep = append(keep, w)
			}
			ws = keep
			for _, sl := range ss {
				if sl.done.Load() != (sl.until <= now) {
					die("Sleep until %d: woken=%v at %d", sl.until, sl.done.Load(), now)
				}
			}
		}
		for len(ws) > 0 {
			s.AfterFunc(time.Hour, func() {})
			synctest.Wait()
			act := s.ActiveTimers()
			var keep []*waiter
			for _, w := range ws {
				if !w.done.Load() {
					if act >= w.n {
						die("WaitForTimers(%d) still blocked with %d timers scheduled", w.n, act)
					}
					keep = append(keep, w)
				}
			}
			ws = keep
		}
		s.Run(1000)
		synctest.Wait()
		for _, sl := range ss {
			if !sl.done.Load() {
				die("sleeper never woken")
			}
		}
		c.Eval("w" + strings.Join(trace, " "))
	})
}

// waitBurst: waiters for some number of timers while threads add them in
// bursts; a waiter that returns must find that many scheduled (none are
// stopped and the clock stands still).
func waitBurst(c *vk.C, n int) {
	r := c.Rng("waitburst", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	s := new(mclock.Simulated)
	total := 20 + r.Intn(300)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		want := 1 + r.Intn(total)
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.WaitForTimers(want)
			if act := s.ActiveTimers(); act < want {
				c.ViolateAsync("waiter early", "WaitForTimers(%d) returned with %d timers scheduled", want, act)
			}
		}()
	}
	var left atomic.Int64
	left.Store(int64(total))
	for g := 0; g < 1+r.Intn(3); g++ {
		gr := c.Rng(fmt.Sprint("waitburst", g), n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for left.Add(-1) >= 0 {
				if gr.Intn(30) == 0 {
					vk.Yield(gr)
				}
				s.AfterFunc(time.Duration(1+gr.Intn(100)), func() {})
			}
		}()
	}
	wg.Wait()
	c.Eval(fmt.Sprint("burst", total, n%64))
}

// Threads scheduling and stopping while another runs the clock.
func simStress(c *vk.C, n int) {
	r := c.Rng("simstress", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	s := new(mclock.Simulated)
	type rec struct {
		fired   atomic.Int64
		stopped int64
		lo, hi  mclock.AbsTime // window of possible deadlines
		at      atomic.Int64
		ch      <-chan mclock.AbsTime
	}
	var mu sync.Mutex
	var recs []*rec
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		gr := c.Rng(fmt.Sprint("simstress-g", g), n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				rc := &rec{}
				d := time.Duration(gr.Intn(50))
				var t mclock.Timer
				rc.lo = s.Now().Add(d)
				if gr.Intn(2) == 0 {
					t = s.AfterFunc(d, func() { rc.fired.Add(1); rc.at.Store(int64(s.Now())) })
				} else {
					ct := s.NewTimer(d)
					t, rc.ch = ct, ct.C()
				}
				rc.hi = s.Now().Add(d)
				vk.Yield(gr)
				if gr.Intn(2) == 0 {
					if t.Stop() {
						rc.stopped++
					}
					if t.Stop() {
						rc.stopped++
					}
				}
				s.ActiveTimers()
				mu.Lock()
				recs = append(recs, rc)
				mu.Unlock()
			}
		}()
	}
	rr := c.Rng("simstress-run", n)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 30; i++ {
			s.Run(time.Duration(rr.Intn(6)))
			vk.Yield(rr)
		}
	}()
	wg.Wait()
	s.Run(1000)
	if s.ActiveTimers() != 0 {
		c.Violate("left over", "run %d: %d timers left after running past every deadline", n, s.ActiveTimers())
	}
	nf := 0
	for _, rc := range recs {
		f := rc.fired.Load()
		if rc.ch != nil {
			for len(rc.ch) > 0 {
				v := <-rc.ch
				f++
				if v < rc.lo || v > rc.hi {
					c.Violate("deadline", "run %d: timer delivered %d, its deadline lies in [%d,%d]", n, v, rc.lo, rc.hi)
				}
			}
		} else if f > 0 && rc.at.Load() < int64(rc.lo) {
			c.Violate("early", "run %d: timer fired at %d before its deadline %d", n, rc.at.Load(), rc.lo)
		}
		if f+rc.stopped != 1 {
			c.Violate("exactly once", "run %d: timer fired %d times and was stopped %d times", n, f, rc.stopped)
		}
		nf += int(f)
	}
	c.Eval(fmt.Sprintf("stress %d %d", nf, s.Now()))
	c.Count("stress_timers", len(recs))
}

func TestC09(t *testing.T) {
	vk.Run(t, "C09", "random schedule/stop/reset/run histories (callbacks that schedule and stop included) against an exact model; waiters checked at quiescence; threads under the race detector with an exactly-once ledger; distinct = different history", func(c *vk.C) {
		for i := 0; i < c.N(8000, 150000); i++ {
			simHistory(c, i)
		}
		for i := 0; i < c.N(2000, 40000); i++ {
			simWaiters(t, c, i)
		}
		for i := 0; i < c.N(300, 6000); i++ {
			simStress(c, i)
		}
		for i := 0; i < c.N(400, 8000); i++ {
			waitBurst(c, i)
		}
		for i := 0; i < c.N(8, 80); i++ {
			simVast(c, i)
		}
		for i := 0; i < c.N(2000, 40000); i++ {
			simFar(c, i)
		}
	})
}

// simFar: timers of every magnitude, to the end of time.
func simFar(c *vk.C, n int) {
	r := c.Rng("simfar", n)
	s := new(mclock.Simulated)
	s.Run(time.Duration(r.Int63() >> uint(20+r.Intn(44))))
	start := s.Now()
	type timer struct {
		d, fired time.Duration
		count    int
		ch       <-chan mclock.AbsTime
	}
	const end = 1<<63 - 1
	ts := make([]*timer, 1+r.Intn(12))
	var stops []time.Duration
	for i := range ts {
		x := &timer{d: time.Duration(r.Int63() >> uint(r.Intn(63)))}
		if room := time.Duration(end - int64(start)); x.d > room {
			x.d = room
		}
		ts[i] = x
		switch r.Intn(3) {
		case 0:
			x.ch = s.After(x.d)
		case 1:
			ct := s.NewTimer(time.Duration(r.Intn(1000)))
			ct.Reset(x.d)
			x.ch = ct.C()
		default:
			s.AfterFunc(x.d, func() { x.count++; x.fired = s.Now().Sub(start) })
		}
		stops = append(stops, x.d)
		if x.d > 0 {
			stops = append(stops, x.d-1)
		}
	}
	sort.Slice(stops, func(i, j int) bool { return stops[i] < stops[j] })
	for _, at := range stops {
		s.Run(at - s.Now().Sub(start))
		left := 0
		for _, x := range ts {
			if x.ch != nil && len(x.ch) > 0 {
				x.count++
				x.fired = (<-x.ch).Sub(start)
			}
			want := 0
			if x.d <= at {
				want = 1
			} else {
				left++
			}
			if x.count != want {
				c.Violate("far fired", "a timer of %d, set at %d, has fired %d times after %d", x.d, start, x.count, at)
				return
			}
			if want == 1 && x.fired != x.d {
				c.Violate("far time", "a timer of %d, set at %d, fired at %d", x.d, start, x.fired)
			}
		}
		if g := s.ActiveTimers(); g != left {
			c.Violate("far active", "%d timers wait, ActiveTimers()=%d", left, g)
		}
	}
	c.Eval(fmt.Sprint("far", len(ts), stops[len(stops)-1]))
}

// simVast: far more timers than any other history, most of them due in one
// single run.
func simVast(c *vk.C, n int) {
	r := c.Rng("simvast", n)
	s := new(mclock.Simulated)
	total := []int{1000, 7000, 20000, 80000}[n%4] + r.Intn(500)
	horizon := 1 + r.Intn(3*total)
	at := make([]int, total)
	fired := make([]int, total)
	when := make([]mclock.AbsTime, total)
	timers := make([]mclock.Timer, total)
	var order []int
	// Somebody waits for all of them.
	var complete atomic.Bool
	waited := make(chan struct{})
	go func() {
		defer close(waited)
		s.WaitForTimers(total)
		if !complete.Load() {
			c.ViolateAsync("vast wait", "WaitForTimers(%d) returned before the last timer was scheduled", total)
		}
	}()
	for i := range at {
		if i == total-1 {
			time.Sleep(2 * time.Millisecond)
			complete.Store(true)
		}
		at[i] = 1 + r.Intn(horizon)
		timers[i] = s.AfterFunc(time.Duration(at[i]), func() {
			fired[i]++
			when[i] = s.Now()
			order = append(order, i)
		})
	}
	vk.Begin("WaitForTimers(%d) with as many", total)
	<-waited
	vk.End()
	if g := s.ActiveTimers(); g != total {
		c.Violate("vast active", "%d timers scheduled, ActiveTimers()=%d", total, g)
	}
	stopped := map[int]bool{}
	for _, i := range r.Perm(total)[:r.Intn(total/4)] {
		if !timers[i].Stop() {
			c.Violate("vast stop", "Stop of one of %d waiting timers returned false", total)
		}
		stopped[i] = true
	}
	now := 0
	for now < horizon {
		d := horizon - now
		if r.Intn(3) == 0 {
			d = 1 + r.Intn(d)
		}
		now += d
		s.Run(time.Duration(d))
		left := 0
		for i := range at {
			want := 0
			if at[i] <= now && !stopped[i] {
				want = 1
			} else if !stopped[i] {
				left++
			}
			if fired[i] != want {
				c.Violate("vast fired", "at %d, one of %d timers, due at %d (stopped: %v), has fired %d times", now, total, at[i], stopped[i], fired[i])
				return
			}
		}
		if g := s.ActiveTimers(); g != left {
			c.Violate("vast active", "at %d, %d of %d timers wait, ActiveTimers()=%d", now, left, total, g)
		}
	}
	for k := 1; k < len(order); k++ {
		if at[order[k]] < at[order[k-1]] {
			c.Violate("vast order", "of %d timers, one due at %d fired before one due at %d", total, at[order[k-1]], at[order[k]])
			return
		}
	}
	c.Count("timers of vast clocks", total)
	c.Eval(fmt.Sprint("vast", total, len(order)))
}

// ------------------------------------------------------------------ C10

func alarmHistory(c *vk.C, n int) {
	r := c.Rng("alarm", n)
	s := new(mclock.Simulated)
	s.Run(time.Duration(r.Intn(3)))
	a := mclock.NewAlarm(s)
	ch := a.C()
	var trace []string
	bad := func(sig string, x ...interface{}) {
		c.Violate(sig, "%s; history %d: %s", fmt.Sprintf(sig, x...), n, strings.Join(trace, " "))
	}
	// Obligations: deadlines of Schedule calls not yet followed by a firing.
	var obl []mclock.AbsTime
	// Permissions: deadlines asked for since the last Stop that could still
	// cause a firing.
	var perm []mclock.AbsTime
	full := false
	// Nanoseconds to months.
	unit := []time.Duration{1, 1, 1, 1000, time.Second, 1 << 40, 1 << 52}[r.Intn(7)]
	var step func(d time.Duration)
	step = func(d time.Duration) {
		if d > 1 { // also just before
			step(1)
			step(-(d - 2))
			step(1)
			return
		}
		if d < 0 {
			d = -d
		}
		s.Run(d)
		now := s.Now()
		isFull := len(ch) == 1
		due := false
		var rest []mclock.AbsTime
		for _, p := range perm {
			if p <= now {
				due = true
			} else {
				rest = append(rest, p)
			}
		}
		if isFull && !full && !due {
			bad("alarm fired at %d, earliest time asked for is %v", now, perm)
		}
		if isFull && due {
			// It fired (perhaps into a channel that already held an unread
			// notification); firing early for a later time is allowed.
			obl = nil
			perm = rest
		}
		full = isFull
		for _, o := range obl {
			if o <= now {
				bad("alarm scheduled for %d has not fired by %d", o, now)
			}
		}
		if a.C() != ch {
			bad("notification channel changed")
		}
	}
	for i := 0; i < 5+r.Intn(40); i++ {
		vk.Begin("alarm %s", strings.Join(trace, " "))
		now := s.Now()
		switch r.Intn(7) {
		case 0, 1, 2:
			t := now.Add(time.Duration(r.Intn(12)-3) * unit)
			trace = append(trace, fmt.Sprintf("%d:schedule(%d)", now, t))
			a.Schedule(t)
			if t < now {
				t = now
			}
			obl = append(obl, t)
			perm = append(perm, t)
			step(0)
		case 3:
			if full {
				trace = append(trace, fmt.Sprintf("%d:recv", now))
				<-ch
				full = false
			}
		case 4:
			if r.Intn(2) == 0 {
				trace = append(trace, fmt.Sprintf("%d:stop", now))
				a.Stop()
				if len(ch) != 0 {
					bad("channel not drained by Stop")
				}
				full, obl, perm = false, nil, nil
			}
		default:
			k := 1 + r.Intn(6)
			trace = append(trace, fmt.Sprintf("%d:run(%d)", now, time.Duration(k)*unit))
			for j := 0; j < k; j++ {
				step(unit)
			}
		}
		vk.End()
	}
	for j := 0; j < 20; j++ {
		step(unit)
	}
	if len(obl) > 0 {
		bad("alarm never fired for %v", obl)
	}
	c.Eval(strings.Join(trace, " "))
	c.Sample("%s", strings.Join(trace, " "))
}

func alarmReal(c *vk.C, n int) {
	r := c.Rng("alarmreal", n)
	clk := mclock.System{}
	for i := 0; i < 4; i++ {
		a := mclock.NewAlarm(clk) // fresh: a late callback cannot leak into the next round
		d := time.Duration(r.Intn(2500)-200) * time.Microsecond
		t0 := clk.Now()
		target := t0.Add(d)
		a.Schedule(target)
		if r.Intn(3) == 0 {
			later := target.Add(time.Duration(r.Intn(1000)) * time.Microsecond)
			a.Schedule(later) // may fire for the earlier one
		}
		if r.Intn(4) == 0 {
			a.Stop()
			a.Schedule(target)
		}
		vk.Owed("alarm on the system clock scheduled %v ahead", d)
		<-a.C()
		vk.Paid()
		if now := clk.Now(); now < target {
			c.Violate("early", "alarm fired %v before the time it was scheduled for", target.Sub(now))
		}
		a.Stop()
		if r.Intn(2) == 0 { // stopped long before it is due: stays silent
			a.Schedule(clk.Now().Add(time.Hour))
			a.Stop()
			clk.Sleep(100 * time.Microsecond)
		}
		c.Eval(fmt.Sprintf("real %v", d))
	}
	// One alarm used over and over: one notification for each time asked for.
	a := mclock.NewAlarm(clk)
	for i := 0; i < 6; i++ {
		d := time.Duration(r.Intn(600)-100) * time.Microsecond
		target := clk.Now().Add(d)
		a.Schedule(target)
		vk.Owed("alarm on the system clock, used %d times before, scheduled %v ahead", i, d)
		<-a.C()
		vk.Paid()
		if now := clk.Now(); now < target {
			c.Violate("early", "alarm fired %v before the time it was scheduled for", target.Sub(now))
		}
		if r.Intn(3) == 0 {
			clk.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			if len(a.C()) != 0 {
				c.Violate("twice", "alarm scheduled once notified twice (run %d)", n)
			}
		}
	}
}

func TestC10(t *testing.T) {
	vk.Run(t, "C10", "random schedule/stop/receive/advance histories on the virtual clock stepped one tick at a time, with obligations (must have fired by) and permissions (may fire) tracked, plus runs on the system clock; distinct = different history", func(c *vk.C) {
		for i := 0; i < c.N(15000, 300000); i++ {
			alarmHistory(c, i)
		}
		for i := 0; i < c.N(200, 3000); i++ {
			alarmReal(c, i)
		}
	})
}

// ------------------------------------------------------------------ C11

func sysTimers(c *vk.C, n int) {
	r := c.Rng("sys", n)
	var clk mclock.Clock = mclock.System{}
	us := func() time.Duration { return time.Duration(r.Intn(1500)) * time.Microsecond }
	bad := func(sig string, a ...interface{}) { c.Violate(sig, "case %d: %s", n, fmt.Sprintf(sig, a...)) }
	d := us()
	op := r.Intn(6)
	switch op {
	case 0:
		t0 := clk.Now()
		clk.Sleep(d)
		if el := clk.Now().Sub(t0); el < d {
			bad("Sleep(%v) took %v", d, el)
		}
	case 1:
		t0 := clk.Now()
		vk.Owed("After(%v)", d)
		v := <-clk.After(d)
		vk.Paid()
		t1 := clk.Now()
		if v.Sub(t0) < d || v > t1 {
			bad("After(%v) delivered time %v after the call", d, v.Sub(t0))
		}
	case 2:
		t0 := clk.Now()
		t := clk.NewTimer(d)
		vk.Owed("NewTimer(%v)", d)
		v := <-t.C()
		vk.Paid()
		if v.Sub(t0) < d || v > clk.Now() {
			bad("timer(%v) delivered time %v after the call", d, v.Sub(t0))
		}
		if t.Stop() {
			bad("Stop of an expired timer returned true")
		}
		d2 := us()
		t1 := clk.Now()
		t.Reset(d2)
		vk.Owed("Reset(%v)", d2)
		v = <-t.C()
		vk.Paid()
		if v.Sub(t1) < d2 {
			bad("reset timer(%v) delivered time %v after the call", d2, v.Sub(t1))
		}
		select {
		case <-t.C():
			bad("timer fired twice")
		default:
		}
	case 3:
		t := clk.NewTimer(time.Hour)
		if !t.Stop() {
			bad("Stop of a pending timer returned false")
		}
		if t.Stop() {
			bad("second Stop returned true")
		}
		t1 := clk.Now()
		t.Reset(d)
		vk.Owed("Reset(%v) of a stopped timer", d)
		v := <-t.C()
		vk.Paid()
		if v.Sub(t1) < d {
			bad("early after Reset")
		}
	case 4:
		ran := make(chan mclock.AbsTime, 4)
		t0 := clk.Now()
		t := clk.AfterFunc(d, func() { ran <- clk.Now() })
		if r.Intn(2) == 0 {
			vk.Owed("AfterFunc(%v)", d)
			v := <-ran
			vk.Paid()
			if v.Sub(t0) < d {
				bad("AfterFunc(%v) ran after %v", d, v.Sub(t0))
			}
			if t.Stop() {
				bad("Stop after the function ran returned true")
			}
		} else {
			clk.Sleep(us())
			if t.Stop() {
				clk.Sleep(d + 200*time.Microsecond)
				if len(ran) != 0 {
					bad("function ran although Stop returned true")
				}
			} else {
				vk.Owed("AfterFunc(%v) that could not be stopped", d)
				<-ran
				vk.Paid()
			}
		}
		if len(ran) > 0 {
			bad("function ran twice")
		}
	case 5: // algebra of times
		a := mclock.AbsTime(r.Int63() - r.Int63())
		x := time.Duration(r.Int63n(1<<60) - 1<<59)
		if a.Add(x) != mclock.AbsTime(int64(a)+int64(x)) || a.Add(x).Sub(a) != x || a.Sub(a.Add(x)) != -x {
			bad("Add/Sub mismatch on %d, %d", a, x)
		}
	}
	what := []string{"Sleep", "After", "timer used again", "timer stopped and reset", "AfterFunc", "arithmetic"}[op]
	c.Eval(fmt.Sprintf("%s %v", what, d))
	c.Sample("%s %v", what, d)
}

// sysVirtual runs the system clock's timers where the runtime's time is
// virtual: durations from nanoseconds to days, to the nanosecond.
func sysVirtual(t *testing.T, c *vk.C, n int) {
	synctest.Test(t, func(t *testing.T) {
		r := c.Rng("sysv", n)
		var clk mclock.Clock = mclock.System{}
		dur := func() time.Duration {
			return time.Duration(r.Int63()>>uint(17+r.Intn(46))) + time.Duration(r.Intn(3)-1)
		}
		bad := func(sig string, a ...interface{}) { c.Violate(sig, "virtual case %d: %s", n, fmt.Sprintf(sig, a...)) }
		d := dur()
		t0 := time.Now()
		early := func(what string, d time.Duration) {
			if el := time.Since(t0); el < d {
				bad("%s(%v) completed after %v", what, d, el)
			}
		}
		// fires waits for exactly one notification in ample time.
		fires := func(what string, ch <-chan mclock.AbsTime, d time.Duration) {
			select {
			case <-ch:
				early(what, d)
			case <-time.After(2*max(d, 0) + time.Second):
				bad("%s(%v) has not completed after twice the time", what, d)
				return
			}
			time.Sleep(2*max(d, 0) + time.Second)
			select {
			case <-ch:
				bad("%s(%v) completed twice", what, d)
			default:
			}
		}
		switch r.Intn(5) {
		case 0:
			clk.Sleep(d)
			early("Sleep", d)
		case 1:
			fires("After", clk.After(d), d)
		case 2:
			ct := clk.NewTimer(d)
			fires("NewTimer", ct.C(), d)
			if ct.Stop() {
				bad("Stop of an expired timer returned true")
			}
			for i := r.Intn(3); i > 0; i-- {
				d = dur()
				t0 = time.Now()
				ct.Reset(d)
				fires("Reset of an expired timer", ct.C(), d)
			}
		case 3:
			first := time.Hour + dur()
			ct := clk.NewTimer(first)
			for i := 1 + r.Intn(3); i > 0; i-- {
				time.Sleep(time.Duration(r.Int63n(int64(time.Second))))
				stopped := r.Intn(2) == 0
				if stopped && !ct.Stop() {
					bad("Stop of a pending timer returned false")
				}
				if stopped && r.Intn(2) == 0 {
					time.Sleep(first)
					if len(ct.C()) != 0 {
						bad("a stopped timer fired")
					}
				}
				d = dur()
				if i > 1 {
					d += time.Minute
				}
				t0 = time.Now()
				ct.Reset(d) // pending or stopped
			}
			fires("Reset", ct.C(), d)
		case 4:
			ran := make(chan mclock.AbsTime, 4)
			ft := clk.AfterFunc(d, func() { ran <- clk.Now() })
			if d > 1 && r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Int63n(int64(d))))
				if len(ran) != 0 {
					bad("AfterFunc(%v) ran before its time", d)
				}
				if !ft.Stop() || ft.Stop() {
					bad("Stop of a pending function is not true once")
				}
				time.Sleep(2 * d)
				if len(ran) != 0 {
					bad("function ran although Stop returned true")
				}
				break
			}
			fires("AfterFunc", ran, d)
			if ft.Stop() {
				bad("Stop after the function ran returned true")
			}
		}
		c.Eval(fmt.Sprintf("virtual %d %v", n%5, d))
	})
}

func sysMonotone(c *vk.C, n int) {
	// A token passed between threads: reads ordered by the token never go back.
	var mu sync.Mutex
	last := mclock.Now()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				mu.Lock()
				v := mclock.Now()
				w := mclock.System{}.Now()
				if v < last || w < v {
					c.ViolateAsync("backwards", "clock went from %d to %d to %d", last, v, w)
				}
				last = w
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	// Elapsed time agrees with the runtime's own monotonic clock.
	t0 := time.Now()
	m0 := mclock.Now()
	time.Sleep(2 * time.Millisecond)
	m1 := mclock.Now()
	t1 := time.Now()
	if m1.Sub(m0) > t1.Sub(t0) || m1.Sub(m0) < 2*time.Millisecond {
		c.Violate("rate", "clock advanced %v during a %v sleep bracketed by %v", m1.Sub(m0), 2*time.Millisecond, t1.Sub(t0))
	}
	c.Eval(fmt.Sprint("mono", n))
}

func TestC11(t *testing.T) {
	vk.Run(t, "C11", "system-clock operations with random sub-millisecond durations: lower bounds and exactly-once only (upper bounds are not decidable by wall time), and monotonicity across threads; distinct = operation and duration", func(c *vk.C) {
		for i := 0; i < c.N(2500, 40000); i++ {
			sysTimers(c, i)
		}
		for i := 0; i < c.N(3000, 60000); i++ {
			sysVirtual(t, c, i)
		}
		for i := 0; i < c.N(50, 500); i++ {
			sysMonotone(c, i)
		}
	})
}
