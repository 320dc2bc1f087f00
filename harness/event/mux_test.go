package event

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"verifharness/vk"
)

type evA struct{ N int }
type evB struct{ N int }
type evC int
type evD string

var muxProto = []interface{}{evA{}, evB{}, evC(0), evD(""), &evA{}}

func muxEvent(k, n int) interface{} {
	switch k {
	case 0:
		return evA{n}
	case 1:
		return evB{n}
	case 2:
		return evC(n)
	case 3:
		return evD(fmt.Sprint(n))
	}
	return &evA{n}
}

// ------------------------------------------------------------------ C04
// Scripts in a bubble: posts block until received; exact delivery sets.

type muxSub struct {
	id     int
	kinds  map[int]bool
	sub    *event.TypeMuxSubscription
	active bool
	closed bool
	got    []string
}

type muxPost struct {
	id      int
	kind    int
	data    interface{}
	pending map[int]bool
	at      time.Time
	done    atomic.Bool
	err     error
}

func muxScript(t *testing.T, c *vk.C, n int, lifecycle bool) {
	label := "mux"
	if lifecycle {
		label = "muxlife"
	}
	synctest.Test(t, func(t *testing.T) {
		r := c.Rng(label, n)
		mux := new(event.TypeMux)
		var subs []*muxSub
		var posts []*muxPost
		var trace []string
		stopped := false
		die := func(sig string, a ...interface{}) {
			c.Die(sig, "%s; script %d: %s\n%s", fmt.Sprintf(sig, a...), n, strings.Join(trace, " "), vk.Stacks())
		}
		outstanding := func() (k int) {
			for _, p := range posts {
				if len(p.pending) > 0 {
					k++
				}
			}
			return
		}
		check := func() {
			synctest.Wait()
			for _, p := range posts {
				if len(p.pending) == 0 && !p.done.Load() {
					die("post %d still blocked although every matching subscription received it or ended", p.id)
				}
				if len(p.pending) > 0 && p.done.Load() {
					die("post %d returned before every matching subscription received it", p.id)
				}
				if len(p.pending) == 0 && p.err != nil {
					die("post %d failed: %v", p.id, p.err)
				}
			}
			for _, s := range subs {
				if s.sub.Closed() != s.closed {
					die("subscription %d: Closed()=%v want %v", s.id, s.sub.Closed(), s.closed)
				}
			}
		}
		recvOne := func(s *muxSub) bool {
			select {
			case ev, ok := <-s.sub.Chan():
				if !ok {
					if !s.closed {
						die("channel of live subscription %d closed", s.id)
					}
					return false
				}
				if s.closed {
					die("delivery on ended subscription %d", s.id)
				}
				var p *muxPost
				for _, q := range posts {
					if q.data == ev.Data {
						p = q
					}
				}
				if p == nil || !p.pending[s.id] {
					die("subscription %d received %#v unexpectedly", s.id, ev.Data)
				}
				if !s.kinds[p.kind] {
					die("subscription %d received an event of a type it did not ask for: %#v", s.id, ev.Data)
				}
				if ev.Time.Before(p.at) || ev.Time.After(time.Now()) {
					die("event posted at %v and received at %v is stamped %v", p.at, time.Now(), ev.Time)
				}
				delete(p.pending, s.id)
				trace = append(trace, fmt.Sprintf("recv%d=%d", s.id, p.id))
				return true
			default:
				if s.closed {
					die("channel of ended subscription %d not closed", s.id)
				}
				return false
			}
		}
		end := func(s *muxSub) {
			s.active, s.closed = false, true
			for _, p := range posts {
				delete(p.pending, s.id)
			}
		}
		steps, maxSubs := 10+r.Intn(40), 7
		if r.Intn(20) == 0 {
			steps, maxSubs = 200, 50
		}
		pause := time.Second
		if r.Intn(10) == 0 { // weeks between the steps
			pause = 700 * time.Hour
		}
		for i := 0; i < steps; i++ {
			time.Sleep(time.Duration(r.Intn(3)) * pause)
			k := r.Intn(20)
			switch {
			case k < 4 && len(subs) < maxSubs:
				s := &muxSub{id: len(subs), kinds: map[int]bool{}, active: true}
				var protos []interface{}
				for _, kk := range r.Perm(len(muxProto))[:1+r.Intn(3)] {
					s.kinds[kk] = true
					protos = append(protos, muxProto[kk])
				}
				trace = append(trace, fmt.Sprintf("sub%d%T", s.id, protos))
				s.sub = mux.Subscribe(protos...)
				if stopped {
					s.active, s.closed = false, true
				}
				subs = append(subs, s)
			case k < 10 && outstanding() < 3:
				p := &muxPost{id: len(posts), kind: r.Intn(len(muxProto)), pending: map[int]bool{}, at: time.Now()}
				p.data = muxEvent(p.kind, p.id+1)
				trace = append(trace, fmt.Sprintf("post%d(%T)", p.id, p.data))
				if stopped {
					if err := mux.Post(p.data); err != event.ErrMuxClosed {
						die("post on a stopped mux returned %v", err)
					}
					break
				}
				for _, s := range subs {
					if s.active && s.kinds[p.kind] {
						p.pending[s.id] = true
					}
				}
				posts = append(posts, p)
				go func() { p.err = mux.Post(p.data); p.done.Store(true) }()
			case k < 16:
				before := outstanding()
				progress := false
				for _, j := range r.Perm(len(subs)) {
					if recvOne(subs[j]) {
						progress = true
						if r.Intn(2) == 0 {
							break
						}
						synctest.Wait()
					}
				}
				if before > 0 && !progress {
					die("posts are outstanding but no subscription is offered anything")
				}
			case k < 19 && len(subs) > 0 && lifecycle:
				s := subs[r.Intn(len(subs))]
				trace = append(trace, fmt.Sprintf("unsub%d", s.id))
				var ret atomic.Int64
				calls := int64(1 + r.Intn(2))
				for q := int64(0); q < calls; q++ {
					go func() { s.sub.Unsubscribe(); ret.Add(1) }()
				}
				synctest.Wait()
				if ret.Load() != calls {
					die("Unsubscribe blocked")
				}
				end(s)
				recvOne(s)
			case k == 19 && lifecycle && r.Intn(4) == 0:
				trace = append(trace, "stop")
				var ret atomic.Bool
				go func() { mux.Stop(); ret.Store(true) }()
				synctest.Wait()
				if !ret.Load() {
					die("Stop blocked")
				}
				stopped = true
				for _, s := range subs {
					end(s)
					recvOne(s)
				}
			}
			check()
		}
		// wind down: every post must complete once everything pending is received
		for round := 0; outstanding() > 0; round++ {
			if round > 200 {
				die("posts never complete")
			}
			progress := false
			for _, s := range subs {
				for s.active && recvOne(s) {
					progress = true
					synctest.Wait()
				}
			}
			check()
			if !progress && outstanding() > 0 {
				die("posts are outstanding but no subscription is offered anything")
			}
		}
		if !stopped {
			mux.Stop()
		}
		for _, s := range subs {
			if len(s.kinds) > 0 {
				if _, ok := <-s.sub.Chan(); ok {
					die("event delivered by Stop")
				}
			}
			s.sub.Unsubscribe()
			if !s.sub.Closed() {
				die("not closed after Unsubscribe")
			}
			if _, ok := <-s.sub.Chan(); ok {
				die("event delivered after end")
			}
		}
		c.Eval(strings.Join(trace, " "))
		c.Count("posts", len(posts))
		c.Sample("%s", strings.Join(trace, " "))
	})
}

// Concurrent posts, subscriptions, unsubscriptions and stops on real threads.
func muxStress(c *vk.C, label string, n int, withStop bool) {
	r := c.Rng(label, n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	mux := new(event.TypeMux)
	var clock atomic.Int64
	tick := func() int64 { return clock.Add(1) }
	type prec struct {
		kind, n int
		b, e    int64
		err     error
	}
	type srec struct {
		kinds          map[int]bool
		sb, se, ub, ue int64
		got            map[int]int
		wrong          string
		late           bool
	}
	var mu sync.Mutex
	var posts []prec
	var subs []*srec
	var pw, sw sync.WaitGroup
	done := make(chan struct{})
	var stopB, stopE atomic.Int64
	np := 1 + r.Intn(3)
	per := 3 + r.Intn(10)
	for p := 0; p < np; p++ {
		pr := c.Rng(label+fmt.Sprint("p", p), n)
		pw.Add(1)
		go func(p int) {
			defer pw.Done()
			for i := 0; i < per; i++ {
				vk.Yield(pr)
				rec := prec{kind: pr.Intn(4), n: p*1000 + i + 1}
				rec.b = tick()
				rec.err = mux.Post(muxEvent(rec.kind, rec.n))
				rec.e = tick()
				mu.Lock()
				posts = append(posts, rec)
				mu.Unlock()
			}
		}(p)
	}
	ns := 1 + r.Intn(5)
	if r.Intn(20) == 0 {
		ns = 15 + r.Intn(20)
	}
	for s := 0; s < ns; s++ {
		sr := c.Rng(label+fmt.Sprint("s", s), n)
		sw.Add(1)
		go func() {
			defer sw.Done()
			for round := 0; round < 3; round++ {
				rec := &srec{kinds: map[int]bool{}, got: map[int]int{}}
				var protos []interface{}
				for _, k := range sr.Perm(4)[:1+sr.Intn(3)] {
					rec.kinds[k] = true
					protos = append(protos, muxProto[k])
				}
				rec.sb = tick()
				sub := mux.Subscribe(protos...)
				rec.se = tick()
				mu.Lock()
				subs = append(subs, rec)
				mu.Unlock()
				limit := sr.Intn(10)
				if round == 2 {
					limit = 1 << 30
				}
			recv:
				for i := 0; i < limit; i++ {
					select {
					case ev, ok := <-sub.Chan():
						if !ok {
							break recv
						}
						var k, v int
						switch x := ev.Data.(type) {
						case evA:
							k, v = 0, x.N
						case evB:
							k, v = 1, x.N
						case evC:
							k, v = 2, int(x)
						case evD:
							k = 3
							fmt.Sscan(string(x), &v)
						}
						if !rec.kinds[k] {
							rec.wrong = fmt.Sprintf("%#v", ev.Data)
						}
						rec.got[v]++
						vk.Yield(sr)
					case <-done:
						break recv
					}
				}
				rec.ub = tick()
				if sr.Intn(2) == 0 {
					go sub.Unsubscribe()
				}
				sub.Unsubscribe()
				rec.ue = tick()
				if _, ok := <-sub.Chan(); ok {
					rec.late = true
				}
			}
		}()
	}
	if withStop {
		sr := c.Rng(label+"stop", n)
		pw.Add(1)
		go func() {
			defer pw.Done()
			for i := 0; i < sr.Intn(60); i++ {
				vk.Yield(sr)
			}
			stopB.Store(tick())
			mux.Stop()
			stopE.Store(tick())
		}()
	}
	pw.Wait()
	close(done)
	sw.Wait()
	for _, s := range subs {
		if s.wrong != "" {
			c.Violate("wrong type", "run %d: subscription got %s", n, s.wrong)
		}
		if s.late {
			c.Violate("late", "run %d: event after Unsubscribe returned", n)
		}
	}
	deliveries := 0
	for _, p := range posts {
		if p.err != nil && p.err != event.ErrMuxClosed {
			c.Violate("post error", "run %d: %v", n, p.err)
		}
		sb, se := stopB.Load(), stopE.Load()
		if p.err != nil && (sb == 0 || p.e < sb) {
			c.Violate("closed early", "run %d: Post returned %v before Stop was called", n, p.err)
		}
		if p.err == nil && se != 0 && p.b > se {
			c.Violate("closed late", "run %d: Post succeeded after Stop returned", n)
		}
		for _, s := range subs {
			g := s.got[p.n]
			deliveries += g
			if g > 1 {
				c.Violate("twice", "run %d: event delivered twice", n)
			}
			if g > 0 && (p.err != nil || p.e < s.sb || p.b > s.ue) {
				c.Violate("unexpected", "run %d: event delivered to a subscription outside its lifetime or after refusal", n)
			}
			if g == 0 && p.err == nil && s.kinds[p.kind] && s.se < p.b && p.e < s.ub && (sb == 0 || p.e < sb) {
				c.Violate("lost", "run %d: event %d not delivered to a subscription alive throughout", n, p.n)
			}
		}
	}
	c.Count("deliveries", deliveries)
	var sb strings.Builder
	for _, p := range posts {
		fmt.Fprintf(&sb, "p%d[%d-%d]%v ", p.n, p.b, p.e, p.err != nil)
	}
	for _, s := range subs {
		fmt.Fprintf(&sb, "s[%d-%d]%d ", s.se, s.ub, len(s.got))
	}
	c.Eval(sb.String())
	c.Sample("concurrent run: %s", sb.String())
}

// muxCrowd: posts blocked on a subscription in numbers, several threads
// unsubscribing and stopping at once; whoever returns finds it closed.
func muxCrowd(c *vk.C, n int) {
	r := c.Rng("muxcrowd", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	mux := new(event.TypeMux)
	sub := mux.Subscribe(evA{}, evB{})
	other := mux.Subscribe(evA{}, evB{})
	got := make(chan int, 1)
	go func() { // drains until closed
		k := 0
		for range other.Chan() {
			k++
		}
		got <- k
	}()
	posters := r.Intn(40)
	var wg, ready sync.WaitGroup
	vk.Begin("%d posts blocked, several unsubscriptions at once, run %d", posters, n)
	for i := 0; i < posters; i++ {
		wg.Add(1)
		ready.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			if err := mux.Post(evA{N: i}); err != nil {
				c.ViolateAsync("crowd post", "run %d: Post = %v while the dispatcher runs", n, err)
			}
		}()
	}
	ready.Wait()
	for i := r.Intn(20); i > 0; i-- {
		vk.Yield(r)
	}
	var uw sync.WaitGroup
	for g := 0; g < 2+r.Intn(3); g++ {
		gr := c.Rng(fmt.Sprint("muxcrowd", g), n)
		uw.Add(1)
		go func() {
			defer uw.Done()
			if gr.Intn(3) == 0 {
				vk.Yield(gr)
			}
			sub.Unsubscribe()
			select {
			case ev, ok := <-sub.Chan():
				if ok {
					c.ViolateAsync("crowd late", "run %d: event %v after Unsubscribe returned", n, ev.Data)
				}
			default:
				c.ViolateAsync("crowd open", "run %d: the channel is open although Unsubscribe has returned", n)
			}
			if !sub.Closed() {
				c.ViolateAsync("crowd closed", "run %d: Closed() is false although Unsubscribe has returned", n)
			}
		}()
	}
	uw.Wait()
	wg.Wait()
	mux.Stop()
	if k := <-got; k != posters {
		c.Violate("crowd other", "run %d: another subscription got %d of %d events", n, k, posters)
	}
	vk.End()
	c.Eval(fmt.Sprint("crowd", posters, n%50))
}

// muxShutdown: many subscriptions with posts blocked on them, several threads
// stopping the dispatcher and unsubscribing at once. Whichever Stop returns,
// everything is closed by then.
func muxShutdown(c *vk.C, n int) {
	r := c.Rng("muxshutdown", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	mux := new(event.TypeMux)
	subs := make([]*event.TypeMuxSubscription, 1+r.Intn(150))
	vk.Begin("%d subscriptions, several stops at once, run %d", len(subs), n)
	for i := range subs {
		var protos []interface{}
		for _, k := range r.Perm(4)[:1+r.Intn(3)] {
			protos = append(protos, muxProto[k])
		}
		subs[i] = mux.Subscribe(protos...)
	}
	var wg, ready sync.WaitGroup
	for k := 0; k < r.Intn(5); k++ {
		wg.Add(1)
		ready.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			mux.Post(muxEvent(k, 1))
		}()
	}
	ready.Wait()
	for i := r.Intn(20); i > 0; i-- {
		vk.Yield(r)
	}
	ending := -1 // closed by its own Unsubscribe, not by the stop
	if r.Intn(2) == 0 {
		ending = r.Intn(len(subs))
	}
	closedAll := func(what string) {
		for i, s := range subs {
			if i == ending {
				continue
			}
			select {
			case _, ok := <-s.Chan():
				if ok {
					c.ViolateAsync("shutdown late", "run %d: subscription %d of %d was still given an event after %s returned", n, i, len(subs), what)
				}
			default:
				c.ViolateAsync("shutdown open", "run %d: the channel of subscription %d of %d is open although %s has returned", n, i, len(subs), what)
			}
			if !s.Closed() {
				c.ViolateAsync("shutdown closed", "run %d: subscription %d of %d not closed although %s has returned", n, i, len(subs), what)
			}
		}
		if err := mux.Post(evA{N: 1}); err != event.ErrMuxClosed {
			c.ViolateAsync("shutdown post", "run %d: Post = %v after %s returned", n, err, what)
		}
		if s := mux.Subscribe(evA{}); !s.Closed() {
			c.ViolateAsync("shutdown born", "run %d: new subscription not closed after %s returned", n, what)
		}
	}
	for g := 0; g < 2+r.Intn(2); g++ {
		gr := c.Rng(fmt.Sprint("muxshutdown", g), n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			vk.Yield(gr)
			mux.Stop()
			closedAll("a Stop")
		}()
	}
	if ending >= 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			subs[ending].Unsubscribe()
			if !subs[ending].Closed() {
				c.ViolateAsync("shutdown unsub", "run %d: not closed after Unsubscribe during a stop", n)
			}
		}()
	}
	wg.Wait()
	vk.End()
	c.Eval(fmt.Sprint("shutdown", len(subs), n%50))
}

func TestC04(t *testing.T) {
	vk.Run(t, "C04", "random scripts of posts, receptions and subscriptions over several event types, exact delivery sets checked at quiescence, plus concurrent runs checked offline; distinct = different trace or different begin/end interleaving", func(c *vk.C) {
		for i := 0; i < c.N(2500, 50000); i++ {
			muxScript(t, c, i, false)
		}
		for i := 0; i < c.N(300, 6000); i++ {
			muxStress(c, "muxs", i, false)
		}
		for i := 0; i < c.N(12, 90); i++ {
			synctest.Test(t, func(t *testing.T) { muxVast(c, i) })
		}
	})
}

func TestC05(t *testing.T) {
	vk.Run(t, "C05", "as C04 with unsubscriptions and stops landing while posts are blocked; distinct = different trace or different begin/end interleaving", func(c *vk.C) {
		for i := 0; i < c.N(2500, 50000); i++ {
			muxScript(t, c, i, true)
		}
		for i := 0; i < c.N(400, 8000); i++ {
			muxStress(c, "muxstop", i, true)
		}
		for i := 0; i < c.N(1500, 30000); i++ {
			muxCrowd(c, i)
		}
		for i := 0; i < c.N(400, 8000); i++ {
			muxShutdown(c, i)
		}
		for i := 0; i < c.N(12, 120); i++ {
			synctest.Test(t, func(t *testing.T) { muxGoVast(c, i) })
		}
	})
}

var _ = time.Now
