package event

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"verifharness/vk"
)

var errProd = errors.New("producer failed")

// ------------------------------------------------------------------ C06
// NewSubscription: producer function as a subscription.

func producerScript(t *testing.T, c *vk.C, n int) {
	synctest.Test(t, func(t *testing.T) {
		r := c.Rng("prod", n)
		var trace []string
		die := func(sig string, a ...interface{}) {
			c.Die(sig, "%s; script %d: %s\n%s", fmt.Sprintf(sig, a...), n, strings.Join(trace, " "), vk.Stacks())
		}
		// Producer plan: run for `life` (virtual) unless told to quit; after a
		// quit, linger for `linger`; then return ret.
		life := time.Duration(r.Intn(8)) * time.Second
		if r.Intn(3) == 0 {
			life = 1000 * time.Hour
		}
		linger := time.Duration(r.Intn(3)) * time.Second
		if r.Intn(12) == 0 { // for weeks
			linger = time.Duration(r.Intn(900)) * time.Hour
		}
		var ret error
		if r.Intn(3) > 0 {
			ret = fmt.Errorf("e%d", n)
		}
		var started atomic.Int64
		var finished, sawQuit atomic.Bool
		var finishedAt time.Time
		begin := time.Now()
		sub := event.NewSubscription(func(quit <-chan struct{}) error {
			started.Add(1)
			select {
			case <-time.After(life):
			case <-quit:
				sawQuit.Store(true)
				time.Sleep(linger)
			}
			finishedAt = time.Now()
			finished.Store(true)
			return ret
		})
		trace = append(trace, fmt.Sprintf("life=%v linger=%v ret=%v", life, linger, ret))
		// A reader drains the error channel (or not, until the end).
		var errs []error
		closed := false
		read := func() {
			for {
				select {
				case e, ok := <-sub.Err():
					if !ok {
						closed = true
						return
					}
					errs = append(errs, e)
				default:
					return
				}
			}
		}
		early := r.Intn(2) == 0
		unsubAt := time.Duration(r.Intn(10))*time.Second + time.Duration(r.Intn(2))*time.Millisecond
		unsubs := 1 + r.Intn(3)
		if r.Intn(5) == 0 && life < time.Hour {
			unsubs = 0
		}
		trace = append(trace, fmt.Sprintf("unsub x%d at %v read-early=%v", unsubs, unsubAt, early))
		step := 500 * time.Millisecond
		for d := time.Duration(0); d < unsubAt; d += step {
			if early {
				read()
			}
			s := step
			if unsubAt-d < s {
				s = unsubAt - d
			}
			time.Sleep(s)
		}
		synctest.Wait()
		if started.Load() != 1 {
			die("producer called %d times", started.Load())
		}
		ownEnd := life < unsubAt // well before
		if ownEnd {
			if !finished.Load() {
				die("producer not finished")
			}
			if sawQuit.Load() {
				die("producer told to quit although nobody unsubscribed")
			}
		}
		if life == unsubAt && finished.Load() {
			ownEnd = true
		}
		if !ownEnd && sawQuit.Load() {
			die("producer told to quit before Unsubscribe")
		}
		t0 := time.Now()
		rets := make([]time.Time, unsubs)
		finishedThen := make([]bool, unsubs)
		var wg sync.WaitGroup
		for i := 0; i < unsubs; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				sub.Unsubscribe()
				rets[i] = time.Now()
				finishedThen[i] = finished.Load()
			}()
		}
		synctest.Wait()
		time.Sleep(time.Hour + linger)
		wg.Wait()
		if unsubs > 0 {
			if !finished.Load() {
				die("Unsubscribe returned but the producer still runs")
			}
			waited := false
			for i := range rets {
				if finishedThen[i] {
					waited = true
				}
				if rets[i].Sub(t0) > linger {
					die("Unsubscribe took %v longer than the producer", rets[i].Sub(t0)-linger)
				}
			}
			if !waited {
				die("no Unsubscribe call waited for the producer to return")
			}
			if !ownEnd && !sawQuit.Load() {
				die("producer was never told to quit")
			}
			if !ownEnd && finishedAt.Sub(t0) != linger {
				die("producer told to quit late")
			}
		}
		if unsubs == 0 {
			time.Sleep(life)
			synctest.Wait()
		}
		read()
		if !closed {
			die("error channel not closed after the end")
		}
		switch {
		case ownEnd || unsubs == 0:
			if ret == nil && len(errs) != 0 {
				die("errors %v from a successful producer", errs)
			}
			if ret != nil && (len(errs) != 1 || errs[0] != ret) {
				die("errors %v, want exactly the producer's %v", errs, ret)
			}
		default:
			if len(errs) != 0 {
				die("error %v reported after Unsubscribe", errs)
			}
		}
		sub.Unsubscribe()
		if unsubs == 0 && sawQuit.Load() {
			die("quit seen")
		}
		_ = begin
		c.Eval(strings.Join(trace, " "))
		c.Sample("%s -> errs=%v quit=%v", strings.Join(trace, " "), errs, sawQuit.Load())
	})
}

// Real threads: producer returning at the same time as Unsubscribe.
func producerRace(c *vk.C, n int) {
	r := c.Rng("prace", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	ret := error(nil)
	if r.Intn(2) == 0 {
		ret = errProd
	}
	spin := r.Intn(30)
	var finished atomic.Bool
	probe := 0 // written by the producer, read after an Unsubscribe that ended it
	fin := make(chan struct{})
	waitQuit := r.Intn(2) == 0
	sub := event.NewSubscription(func(quit <-chan struct{}) error {
		for i := 0; i < spin; i++ {
			select {
			case <-quit:
				spin = 0
			default:
				runtime.Gosched()
			}
		}
		if waitQuit {
			<-quit
		}
		probe++
		finished.Store(true)
		close(fin)
		return ret
	})
	nu := 1
	if !waitQuit {
		nu = 1 + r.Intn(3)
	}
	var wg sync.WaitGroup
	for i := 0; i < nu; i++ {
		ur := c.Rng(fmt.Sprint("prace-u", i), n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			vk.Yield(ur)
			sub.Unsubscribe()
			if nu == 1 {
				if !finished.Load() {
					c.ViolateAsync("unsub early", "run %d: Unsubscribe returned while the producer was running", n)
				}
				probe++ // race detector: ordered after the producer
			}
		}()
	}
	var errs []error
	for e := range sub.Err() {
		errs = append(errs, e)
	}
	<-fin
	wg.Wait()
	if len(errs) > 1 || len(errs) == 1 && errs[0] != ret || waitQuit && len(errs) != 0 {
		c.Violate("race errs", "run %d: error channel delivered %v, producer returned %v", n, errs, ret)
	}
	c.Eval(fmt.Sprintf("race %v %d %d %d %v", waitQuit, spin, nu, len(errs), ret))
}

func TestC06(t *testing.T) {
	vk.Run(t, "C06", "producers with random lifetimes, lingering and results against unsubscriptions at random virtual times (exact outcome at quiescence), plus races on real threads under the race detector; distinct = different plan", func(c *vk.C) {
		for i := 0; i < c.N(4000, 80000); i++ {
			producerScript(t, c, i)
		}
		for i := 0; i < c.N(3000, 60000); i++ {
			producerRace(c, i)
		}
	})
}

// ------------------------------------------------------------------ C07
// Resubscribe

type fakeSub struct {
	err    chan error
	unsubs atomic.Int64
	slow   time.Duration // the first Unsubscribe of a live subscription takes so long
	once   sync.Once
	mu     sync.Mutex
	closed bool
}

func (f *fakeSub) Err() <-chan error { return f.err }
func (f *fakeSub) Unsubscribe() {
	f.once.Do(func() {
		if f.slow > 0 && len(f.err) == 0 {
			time.Sleep(f.slow)
		}
	})
	f.unsubs.Add(1)
	f.end(nil)
}

// end terminates the subscription: with an error, or by closing the channel.
func (f *fakeSub) end(err error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.closed {
		return
	}
	if err != nil {
		select {
		case f.err <- err:
		default:
		}
		return
	}
	f.closed = true
	close(f.err)
}

type rcall struct {
	start, end time.Time
	ok         bool
	cancelled  bool
	errArg     error
	errRet     error
	sub        *fakeSub
	ctx        context.Context
	subEndErr  error
	subEnded   bool
	subEndAt   time.Time
}

func resubScript(t *testing.T, c *vk.C, n int) {
	synctest.Test(t, func(t *testing.T) {
		r := c.Rng("resub", n)
		var trace []string
		die := func(sig string, a ...interface{}) {
			c.Die(sig, "%s; script %d: %s\n%s", fmt.Sprintf(sig, a...), n, strings.Join(trace, " "), vk.Stacks())
		}
		max := time.Duration(1+r.Intn(40)) * 100 * time.Second
		withErr := r.Intn(2) == 0
		// plan for each attempt
		type plan struct {
			dur       time.Duration // time the attempt takes
			heed      bool          // returns early when its context is cancelled
			fail      error
			life      time.Duration // sub lives this long, then ends
			end       error         // nil: ends successfully
			realSub   bool
			neverEnds bool
			slow      time.Duration // releasing it takes so long
		}
		mk := func(i int) plan {
			p := plan{dur: time.Duration(r.Intn(3)) * time.Second, heed: r.Intn(2) == 0}
			if r.Intn(2) == 0 {
				p.fail = fmt.Errorf("attempt%d", i)
			}
			p.life = time.Duration(r.Intn(60)) * time.Second
			if r.Intn(6) > 0 {
				p.end = fmt.Errorf("end%d", i)
			}
			p.neverEnds = r.Intn(12) == 0
			if r.Intn(8) == 0 {
				p.dur = time.Duration(r.Intn(100)) * time.Second
			}
			if r.Intn(3) == 0 {
				p.slow = time.Duration(r.Intn(30)) * time.Second
			}
			return p
		}
		// Hundreds of attempts; attempts that take weeks.
		many := r.Intn(40) == 0
		var long time.Duration
		if !many && r.Intn(12) == 0 {
			long = time.Duration(1+r.Intn(900)) * time.Hour
		}
		nPlans := 1 + r.Intn(14)
		plans := make([]plan, nPlans)
		for i := range plans {
			plans[i] = mk(i)
			if many {
				plans[i].neverEnds = false
				if plans[i].end == nil {
					plans[i].end = errProd
				}
			}
			trace = append(trace, fmt.Sprintf("[%d: dur=%v fail=%v life=%v end=%v never=%v heed=%v release=%v]", i, plans[i].dur, plans[i].fail, plans[i].life, plans[i].end, plans[i].neverEnds, plans[i].heed, plans[i].slow))
		}
		fr := c.Rng("resub-fn", n)
		var calls []*rcall
		inflight := 0
		fn := func(ctx context.Context, errArg error) (event.Subscription, error) {
			if inflight++; inflight > 1 {
				die("two attempts at once")
			}
			defer func() { inflight-- }()
			rc := &rcall{start: time.Now(), errArg: errArg, ctx: ctx}
			i := len(calls)
			calls = append(calls, rc)
			p := plan{dur: time.Second, fail: errProd}
			if many {
				p = plans[i%len(plans)]
				if i > 600 { // (plans may take no time at all)
					p = plan{neverEnds: true}
				}
			} else if i < len(plans) {
				p = plans[i]
			}
			if i == 0 && long > 0 {
				p.dur = long
			}
			if ctx.Err() != nil {
				die("attempt started with a cancelled context")
			}
			tm := time.NewTimer(p.dur)
			select {
			case <-tm.C:
			case <-ctx.Done():
				rc.cancelled = true
				if p.heed {
					tm.Stop()
					if p.fail == nil && fr.Intn(2) == 0 {
						break // established all the same
					}
					rc.end = time.Now()
					rc.errRet = ctx.Err()
					return nil, ctx.Err()
				}
				<-tm.C
			}
			rc.end = time.Now()
			if p.fail != nil {
				rc.errRet = p.fail
				return nil, p.fail
			}
			rc.ok = true
			rc.sub = &fakeSub{err: make(chan error, 1)}
			if p.neverEnds {
				rc.sub.slow = p.slow
			}
			if !p.neverEnds {
				rc.subEndErr = p.end
				time.AfterFunc(p.life, func() {
					if rc.sub.unsubs.Load() > 0 {
						return
					}
					rc.subEnded = true
					rc.subEndAt = time.Now()
					rc.sub.end(p.end)
				})
			}
			return rc.sub, nil
		}
		var sub event.Subscription
		if withErr {
			sub = event.ResubscribeErr(max, fn)
		} else {
			sub = event.Resubscribe(max, func(ctx context.Context) (event.Subscription, error) { return fn(ctx, nil) })
		}
		outerClosed := time.Time{}
		var outerErr error
		go func() {
			for e := range sub.Err() {
				outerErr = e
			}
			outerClosed = time.Now()
		}()
		// Let it run for a random time, then unsubscribe.
		run := time.Duration(r.Int63n(int64(max)*3)) + time.Duration(r.Intn(200))*time.Second
		if r.Intn(3) == 0 {
			run = time.Duration(r.Intn(40)) * 250 * time.Millisecond
		}
		if many {
			run = max * time.Duration(100+r.Intn(300))
		} else if long > 0 {
			run += time.Duration(r.Int63n(int64(long) + int64(max)))
		}
		trace = append(trace, fmt.Sprintf("long=%v many=%v", long, many))
		trace = append(trace, fmt.Sprintf("max=%v unsub at %v errvariant=%v", max, run, withErr))
		time.Sleep(run)
		synctest.Wait()
		t0 := time.Now()
		endedBefore := !outerClosed.IsZero()
		nCallsAt := len(calls)
		inflightAt := inflight
		var returned atomic.Bool
		go func() {
			sub.Unsubscribe()
			for i, rc := range calls {
				if rc.end.IsZero() {
					die("Unsubscribe returned while attempt %d was running", i)
				}
				if rc.sub != nil && rc.sub.unsubs.Load() == 0 {
					die("Unsubscribe returned before the subscription of attempt %d was released", i)
				}
				if rc.ctx.Err() == nil {
					die("the context of attempt %d is live after Unsubscribe", i)
				}
			}
			returned.Store(true)
		}()
		time.Sleep(200*time.Second + long) // more than any attempt and release take
		synctest.Wait()
		if !returned.Load() {
			die("Unsubscribe did not return (ended before: %v)", endedBefore)
		}
		if outerClosed.IsZero() {
			die("error channel not closed after Unsubscribe")
		}
		if outerErr != nil {
			die("error channel delivered %v", outerErr)
		}
		// a second and third call are no-ops
		done2 := false
		go func() { sub.Unsubscribe(); sub.Unsubscribe(); done2 = true }()
		synctest.Wait()
		if !done2 {
			die("repeated Unsubscribe blocked")
		}
		time.Sleep(5 * max)
		synctest.Wait()
		if len(calls) != nCallsAt {
			die("attempt made after Unsubscribe")
		}
		// offline checks over the recorded calls
		var lastEnd error
		for i, rc := range calls {
			if rc.end.IsZero() {
				die("attempt %d still running", i)
			}
			if rc.sub != nil && rc.sub.unsubs.Load() == 0 {
				die("subscription established by attempt %d was never released", i)
			}
			if i == inflightIdx(inflightAt, nCallsAt) && !endedBefore {
				if !rc.cancelled && rc.end.After(t0) {
					die("in-flight attempt's context not cancelled by Unsubscribe")
				}
			} else if rc.cancelled {
				die("attempt %d cancelled without Unsubscribe", i)
			}
			if withErr && rc.errArg != lastEnd {
				die("attempt %d was given error %v, want %v (the last subscription's)", i, rc.errArg, lastEnd)
			}
			if i > 0 {
				prev := calls[i-1]
				var gap time.Duration
				if prev.ok {
					if !prev.subEnded || prev.subEndErr == nil {
						die("attempt %d made although subscription %d had not failed", i, i-1)
					}
					gap = rc.start.Sub(prev.subEndAt)
				} else {
					gap = rc.start.Sub(prev.end)
					if gap <= 0 {
						die("no backoff between failed attempt %d and the next", i-1)
					}
				}
				if gap > max {
					die("backoff of %v exceeds the maximum %v", gap, max)
				}
				if i > 1 && !prev.ok && !calls[i-2].ok {
					before := prev.start.Sub(calls[i-2].end)
					if gap < before || gap == before && gap < max {
						die("backoff did not grow: %v after %v (maximum %v)", gap, before, max)
					}
					c.Count("growing_waits", 1)
				}
			}
			if rc.ok && rc.subEnded && rc.subEndErr != nil {
				lastEnd = rc.subEndErr
			}
		}
		if nCallsAt == 0 {
			die("no attempt made")
		}
		last := calls[nCallsAt-1]
		endedWell := last.ok && !last.cancelled && last.subEnded && last.subEndErr == nil && !last.subEndAt.After(t0)
		if endedBefore && !endedWell {
			die("ended although the last subscription did not end successfully")
		}
		if !endedBefore && endedWell {
			die("still open although the active subscription ended successfully")
		}
		if !endedBefore && last.ok && last.subEnded && last.subEndErr != nil && last.subEndAt.Before(t0) {
			die("no new attempt after the active subscription failed")
		}
		if !endedBefore && !last.ok && !last.cancelled && !last.end.After(t0) && t0.Sub(last.end) > max {
			die("no new attempt within the maximum backoff")
		}
		state := "active"
		switch {
		case endedBefore:
			state = "ended"
		case inflightAt > 0:
			state = "inflight"
		case !last.ok:
			state = "backoff"
		}
		c.Count("unsubscribed_while_"+state, 1)
		c.Count("attempts", len(calls))
		c.Eval(fmt.Sprintf("%d %s %s", len(calls), state, strings.Join(trace, " ")))
		c.Sample("%d attempts, unsubscribed while %s: %s", len(calls), state, strings.Join(trace, " "))
	})
}

func inflightIdx(inflight, n int) int {
	if inflight > 0 {
		return n - 1
	}
	return -1
}

// Real threads: attempts returning at the moment of Unsubscribe.
func resubRace(c *vk.C, n int) {
	r := c.Rng("resubrace", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	var mu sync.Mutex
	var est []*fakeSub
	seq := 0
	running := 0
	sub := event.ResubscribeErr(50*time.Microsecond, func(ctx context.Context, err error) (event.Subscription, error) {
		mu.Lock()
		seq++
		k := c.Rng(fmt.Sprint("resubrace-f", seq), n)
		running++
		mu.Unlock()
		defer func() {
			mu.Lock()
			running--
			mu.Unlock()
		}()
		vk.Yield(k)
		switch k.Intn(3) {
		case 0:
			return nil, errProd
		}
		s := &fakeSub{err: make(chan error, 1)}
		mu.Lock()
		est = append(est, s)
		mu.Unlock()
		if k.Intn(3) > 0 {
			s.end(errProd)
		}
		if k.Intn(40) == 0 {
			s.end(nil)
		}
		return s, nil
	})
	for i := 0; i < r.Intn(60); i++ {
		vk.Yield(r)
	}
	var wg sync.WaitGroup
	for i := 0; i < 1+r.Intn(2); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sub.Unsubscribe()
			mu.Lock()
			defer mu.Unlock()
			if running > 0 {
				c.ViolateAsync("still running", "run %d: Unsubscribe returned while an attempt was running", n)
			}
			for i, s := range est {
				if s.unsubs.Load() == 0 {
					c.ViolateAsync("leak", "run %d: Unsubscribe returned although established subscription %d of %d was not released", n, i, len(est))
				}
			}
		}()
	}
	wg.Wait()
	for range sub.Err() {
	}
	mu.Lock()
	defer mu.Unlock()
	c.Eval(fmt.Sprintf("race %d %d", seq, len(est)))
}

// resubReset: after an attempt that lasted longer than the maximum the waits
// start small again (real time: the implementation reads the real clock). The
// smallest of several waits is judged, so that a busy machine cannot matter.
func resubReset(c *vk.C, n int) {
	const max = 150 * time.Millisecond
	const rounds = 4
	best := time.Hour
	var lastEnd time.Time
	calls := 0
	done := make(chan struct{})
	sub := event.Resubscribe(max, func(ctx context.Context) (event.Subscription, error) {
		if calls > 0 && calls%4 == 0 { // the wait after the long attempt
			if d := time.Since(lastEnd); d < best {
				best = d
			}
		}
		if calls++; calls == 4*rounds+1 {
			close(done)
		}
		if calls%4 == 0 {
			time.Sleep(max + 20*time.Millisecond)
		}
		lastEnd = time.Now()
		return nil, errProd
	})
	<-done
	sub.Unsubscribe()
	if best > max*2/3 {
		c.ViolateAsync("no reset", "after attempts longer than the maximum of %v the waits were never shorter than %v (run %d)", max, best, n)
	}
	c.Eval(fmt.Sprint("reset ", n))
	c.Count("long_attempts", rounds)
}

func TestC07(t *testing.T) {
	vk.Run(t, "C07", "random plans of attempts (duration, failure, lifetime, ending) run in virtual time, unsubscribed while an attempt is in flight, while backing off, while active or after the end; every attempt and release recorded and checked offline; plus races on real threads; distinct = different plan+outcome", func(c *vk.C) {
		for i := 0; i < c.N(4000, 80000); i++ {
			resubScript(t, c, i)
		}
		for i := 0; i < c.N(1500, 20000); i++ {
			resubRace(c, i)
		}
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); resubReset(c, i) }()
		}
		wg.Wait()
	})
}

// ------------------------------------------------------------------ C08
// SubscriptionScope

func scopeHistory(c *vk.C, n int) {
	r := c.Rng("scope", n)
	var sc event.SubscriptionScope
	type ms struct {
		inner   *fakeSub
		wrap    event.Subscription
		tracked bool
	}
	var subs []*ms
	closed := false
	var trace []string
	bad := func(sig string, a ...interface{}) {
		c.Violate(sig, "%s; history %d: %s", fmt.Sprintf(sig, a...), n, strings.Join(trace, " "))
	}
	steps := 5 + r.Intn(25)
	if r.Intn(40) == 0 {
		steps = 400
	}
	for i := 0; i < steps; i++ {
		vk.Begin("scope history %d", n)
		switch r.Intn(8) {
		case 0, 1, 2:
			in := &fakeSub{err: make(chan error, 1)}
			w := sc.Track(in)
			trace = append(trace, fmt.Sprintf("track->%v", w != nil))
			if closed != (w == nil) {
				bad("Track returned %v on a scope with closed=%v", w, closed)
			}
			if closed {
				if in.unsubs.Load() != 0 {
					bad("rejected subscription was touched")
				}
				break
			}
			if w != nil {
				subs = append(subs, &ms{in, w, true})
			}
		case 3, 4:
			if len(subs) > 0 {
				j := r.Intn(len(subs))
				m := subs[j]
				trace = append(trace, fmt.Sprintf("unsub%d", j))
				m.wrap.Unsubscribe()
				m.tracked = false
				if m.inner.unsubs.Load() == 0 {
					bad("unsubscribing the wrapper did not unsubscribe the subscription")
				}
				if _, ok := <-m.wrap.Err(); ok {
					bad("error channel not closed")
				}
			}
		case 5:
			if len(subs) > 0 {
				j := r.Intn(len(subs))
				m := subs[j]
				if m.inner.unsubs.Load() == 0 && len(m.inner.err) == 0 {
					trace = append(trace, fmt.Sprintf("fail%d", j))
					m.inner.end(errProd)
					if e := <-m.wrap.Err(); e != errProd {
						bad("wrapper's error channel gave %v", e)
					}
				}
			}
		case 6:
			if r.Intn(4) == 0 {
				trace = append(trace, "close")
				sc.Close()
				closed = true
				for _, m := range subs {
					m.tracked = false
				}
			}
		}
		vk.End()
		cnt := 0
		for j, m := range subs {
			if m.tracked {
				cnt++
				if m.inner.unsubs.Load() != 0 {
					bad("subscription %d released although it is still tracked", j)
				}
			} else if m.inner.unsubs.Load() == 0 {
				bad("subscription %d not released", j)
			}
		}
		if sc.Count() != cnt {
			bad("Count()=%d, %d subscriptions tracked", sc.Count(), cnt)
		}
	}
	c.Eval(strings.Join(trace, " "))
	c.Sample("%s", strings.Join(trace, " "))
}

func scopeRace(c *vk.C, n int) {
	r := c.Rng("scoperace", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	var sc event.SubscriptionScope
	var feed event.FeedOf[int]
	var wg sync.WaitGroup
	var mu sync.Mutex
	var clock atomic.Int64
	type rec struct {
		in      *fakeSub
		b, e    int64
		ok      bool
		real    event.Subscription
		unsubOK bool
	}
	var recs []*rec
	var closeB, closeE int64
	for g := 0; g < 1+r.Intn(4); g++ {
		gr := c.Rng(fmt.Sprint("scoperace-g", g), n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 4; i++ {
				vk.Yield(gr)
				rc := &rec{in: &fakeSub{err: make(chan error, 1)}}
				var s event.Subscription = rc.in
				if gr.Intn(2) == 0 {
					ch := make(chan int, 1)
					rc.real = feed.Subscribe(ch)
					s = rc.real
				}
				rc.b = clock.Add(1)
				w := sc.Track(s)
				rc.e = clock.Add(1)
				rc.ok = w != nil
				mu.Lock()
				recs = append(recs, rc)
				mu.Unlock()
				vk.Yield(gr)
				sc.Count()
				if w != nil && gr.Intn(2) == 0 {
					w.Unsubscribe()
					rc.unsubOK = true
				}
			}
		}()
	}
	wg.Add(1)
	cr := c.Rng("scoperace-c", n)
	go func() {
		defer wg.Done()
		for i := 0; i < cr.Intn(20); i++ {
			vk.Yield(cr)
		}
		b := clock.Add(1)
		if cr.Intn(2) == 0 {
			wg.Add(1)
			go func() { defer wg.Done(); sc.Close() }()
		}
		sc.Close()
		// Whatever was accepted has been released by now.
		mu.Lock()
		closeB, closeE = b, clock.Add(1)
		mu.Unlock()
	}()
	wg.Wait()
	if sc.Count() != 0 {
		c.Violate("count after close", "run %d: Count()=%d after Close", n, sc.Count())
	}
	acc := 0
	for _, rc := range recs {
		if rc.ok {
			acc++
			if rc.real == nil && rc.in.unsubs.Load() == 0 {
				c.Violate("not released", "run %d: a tracked subscription was not released by Close", n)
			}
			if rc.real != nil {
				select {
				case <-rc.real.Err():
				default:
					c.Violate("not released", "run %d: a tracked feed subscription was not released by Close", n)
				}
			}
			if rc.b > closeE {
				c.Violate("accepted", "run %d: Track accepted after Close returned", n)
			}
		} else if rc.e < closeB {
			c.Violate("rejected", "run %d: Track refused before Close was called", n)
		}
	}
	c.Eval(fmt.Sprintf("race %d/%d %d %d", acc, len(recs), closeB, closeE))
}

// scopeSlow: subscriptions that take their time to end while several calls of
// Close and wrapper unsubscriptions overlap; whoever returns from Close must
// find every tracked subscription released.
func scopeSlow(c *vk.C, n int) {
	r := c.Rng("scopeslow", n)
	ms := func(n int) time.Duration { return time.Duration(r.Intn(n)) * 200 * time.Microsecond }
	var sc event.SubscriptionScope
	type rec struct {
		ended atomic.Bool
		wrap  event.Subscription
	}
	var recs []*rec
	var trace strings.Builder
	for i := 0; i < 1+r.Intn(5); i++ {
		rc := &rec{}
		life := ms(10)
		fmt.Fprintf(&trace, "life %v ", life)
		rc.wrap = sc.Track(event.NewSubscription(func(q <-chan struct{}) error {
			<-q
			time.Sleep(life)
			rc.ended.Store(true)
			return nil
		}))
		recs = append(recs, rc)
	}
	type act struct {
		at  time.Duration
		who int
	}
	var acts []act
	for i := 0; i < 2+r.Intn(4); i++ {
		a := act{ms(12), -1}
		if i >= 2 && r.Intn(3) > 0 {
			a.who = r.Intn(len(recs))
		}
		fmt.Fprintf(&trace, "%v:%d ", a.at, a.who)
		acts = append(acts, a)
	}
	bad := func(sig string, a ...interface{}) {
		c.ViolateAsync(sig, "%s; run %d: %s", fmt.Sprintf(sig, a...), n, trace.String())
	}
	var wg sync.WaitGroup
	for _, a := range acts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(a.at)
			if a.who >= 0 {
				recs[a.who].wrap.Unsubscribe()
				return
			}
			sc.Close()
			for j, rc := range recs {
				// A subscription being ended through its wrapper at this
				// moment is released by that call.
				byWrapper := false
				for _, o := range acts {
					byWrapper = byWrapper || o.who == j
				}
				if !byWrapper && !rc.ended.Load() {
					bad("Close returned although subscription %d had not been released", j)
				}
			}
			if sc.Count() != 0 {
				bad("Count()=%d after Close", sc.Count())
			}
		}()
	}
	wg.Wait()
	c.Eval("slow " + trace.String())
	c.Count("slow_closes", 1)
}

// scopeCrowd: hundreds of tracked producers that take a moment to end.
func scopeCrowd(c *vk.C, n int) {
	r := c.Rng("scopecrowd", n)
	var sc event.SubscriptionScope
	total := 1 + r.Intn(500)
	var ended atomic.Int64
	wraps := make([]event.Subscription, total)
	vk.Begin("scope with %d producers", total)
	for i := range wraps {
		slow := r.Intn(20) == 0
		wraps[i] = sc.Track(event.NewSubscription(func(q <-chan struct{}) error {
			<-q
			if slow {
				time.Sleep(100 * time.Microsecond)
			}
			ended.Add(1)
			return nil
		}))
	}
	gone := 0
	for _, i := range r.Perm(total)[:r.Intn(total/2+1)] {
		wraps[i].Unsubscribe()
		gone++
		if g := sc.Count(); g != total-gone {
			c.Violate("crowd count", "Count()=%d of %d tracked, %d unsubscribed", g, total, gone)
		}
		if e := ended.Load(); e != int64(gone) {
			c.Violate("crowd released", "%d producers ended after %d of %d wrappers were unsubscribed", e, gone, total)
		}
	}
	sc.Close()
	if e, g := ended.Load(), sc.Count(); e != int64(total) || g != 0 {
		c.Violate("crowd close", "Close returned with %d of %d producers ended and Count()=%d", e, total, g)
	}
	vk.End()
	c.Eval(fmt.Sprint("crowd", total, gone))
}

// nosySub uses its scope while it is being unsubscribed, as producers that
// report their number when they end do.
type nosySub struct {
	fakeSub
	nosy func()
}

func (s *nosySub) Unsubscribe() {
	s.nosy()
	s.fakeSub.Unsubscribe()
}

func scopeNosy(c *vk.C, n int) {
	r := c.Rng("scopenosy", n)
	var sc event.SubscriptionScope
	vk.Begin("scope used by the subscription being unsubscribed, run %d", n)
	others := r.Intn(5)
	var ow []event.Subscription
	for i := 0; i < others; i++ {
		ow = append(ow, sc.Track(&fakeSub{err: make(chan error, 1)}))
	}
	kind := r.Intn(3)
	want := others
	ns := &nosySub{fakeSub: fakeSub{err: make(chan error, 1)}}
	ns.nosy = func() {
		switch kind {
		case 0:
			if g := sc.Count(); g < others || g > others+1 {
				c.Violate("nosy count", "Count()=%d while one of %d tracked subscriptions is being unsubscribed", g, others+1)
			}
		case 1:
			if sc.Track(&fakeSub{err: make(chan error, 1)}) == nil {
				c.Violate("nosy track", "Track refused on an open scope")
			}
			want++
		case 2:
			if others > 0 {
				ow[0].Unsubscribe()
				want--
			}
		}
	}
	w := sc.Track(ns)
	w.Unsubscribe()
	vk.End()
	if g := sc.Count(); g != want {
		c.Violate("nosy", "Count()=%d after an unsubscription that did %d meanwhile, want %d", g, kind, want)
	}
	c.Eval(fmt.Sprint("nosy", kind, others))
}

func TestC08(t *testing.T) {
	vk.Run(t, "C08", "random track/unsubscribe/close/fail histories checked against an exact model after each step, plus concurrent track/unsubscribe/close on real threads; distinct = different trace", func(c *vk.C) {
		for i := 0; i < c.N(5000, 100000); i++ {
			scopeHistory(c, i)
		}
		for i := 0; i < c.N(3000, 40000); i++ {
			scopeRace(c, i)
		}
		for i := 0; i < c.N(1000, 20000); i++ {
			scopeSlow(c, i)
		}
		for i := 0; i < c.N(150, 4000); i++ {
			scopeCrowd(c, i)
		}
		for i := 0; i < c.N(200, 2000); i++ {
			scopeNosy(c, i)
		}
		for i := 0; i < c.N(8, 60); i++ {
			scopeVast(c, i)
		}
	})
}
