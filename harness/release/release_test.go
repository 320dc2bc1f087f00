// Package release watches what the library keeps: cleanups attached to values,
// channels' contents, callbacks and handlers tell when the last reference to
// each is gone, and stack dumps tell which goroutines are left.
package release

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"flychain/common/mclock"
	"flychain/event"
	"flychain/log"
	"verifharness/vk"
)

// token is a value whose end is observed.
type token struct {
	id  int
	pad [5]int
	p   *int
}

// ledger knows which tokens are gone.
type ledger struct {
	mu    sync.Mutex
	n     int
	alive map[int]string
}

// found counts the violations: each costs the time of waiting in vain.
var found atomic.Int64

func newLedger() *ledger { return &ledger{alive: map[int]string{}} }

// watch notes the end of the object.
func watch[T any](l *ledger, p *T, what string) int {
	l.mu.Lock()
	l.n++
	id := l.n
	l.alive[id] = what
	l.mu.Unlock()
	runtime.AddCleanup(p, func(id int) {
		l.mu.Lock()
		delete(l.alive, id)
		l.mu.Unlock()
	}, id)
	return id
}

func (l *ledger) token(what string) *token {
	t := &token{p: new(int)}
	t.id = watch(l, t, what)
	return t
}

// kept collects garbage until nothing but the tokens in use is left, or it is
// clear that it stays.
func (l *ledger) kept(inUse map[int]bool) (left []string) {
	for round := 0; round < 45; round++ {
		runtime.GC()
		left = left[:0]
		l.mu.Lock()
		for id, what := range l.alive {
			if !inUse[id] {
				left = append(left, what)
			}
		}
		l.mu.Unlock()
		if len(left) == 0 {
			return nil
		}
		if round > 0 {
			time.Sleep(time.Duration(round) * time.Millisecond)
		}
	}
	sort.Strings(left)
	found.Add(1)
	return left
}

// missing tells tokens in use that are gone: the harness's own error.
func (l *ledger) missing(inUse map[int]bool) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	for id := range inUse {
		if _, ok := l.alive[id]; !ok {
			return true
		}
	}
	return false
}

// away runs f on a stack of its own, so that nothing of it is left on this one.
func away(f func()) {
	done := make(chan interface{})
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

// leftovers are the goroutines inside the library once all has ended.
func leftovers() string {
	for round := 0; ; round++ {
		buf := make([]byte, 1<<22)
		buf = buf[:runtime.Stack(buf, true)]
		var left []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "\nflychain/") || strings.Contains(g, "created by flychain/") {
				left = append(left, g)
			}
		}
		if len(left) == 0 {
			return ""
		}
		if round > 100 {
			found.Add(1)
			return strings.Join(left, "\n\n")
		}
		time.Sleep(time.Duration(round) * time.Millisecond)
	}
}

func summary(left []string) string {
	m := map[string]int{}
	for _, l := range left {
		m[l]++
	}
	var out []string
	for k, n := range m {
		out = append(out, fmt.Sprintf("%d x %s", n, k))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// ---------------------------------------------------------------- feeds

type feedAPI[T any] interface {
	Subscribe(chan T) event.Subscription
	Send(T) int
}

type untyped[T any] struct{ f event.Feed }

func (u *untyped[T]) Subscribe(c chan T) event.Subscription { return u.f.Subscribe(c) }
func (u *untyped[T]) Send(v T) int                          { return u.f.Send(v) }

type typed[T any] struct{ f event.FeedOf[T] }

func (u *typed[T]) Subscribe(c chan T) event.Subscription { return u.f.Subscribe(c) }
func (u *typed[T]) Send(v T) int                          { return u.f.Send(v) }

type member[T any] struct {
	ch    chan T
	sub   event.Subscription
	queue []int // tokens in the channel, first of them first
}

func feedRelease[T any](c *vk.C, name string, mk func(*token) T, untypedFeed bool, n int) {
	r := c.Rng("feed "+name, n)
	l := newLedger()
	var api feedAPI[T]
	var raw *event.Feed
	if untypedFeed {
		u := &untyped[T]{}
		api, raw = u, &u.f
	} else {
		api = &typed[T]{}
	}
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	members := map[int]*member[T]{}
	next := 0
	pick := func() (int, *member[T]) {
		var ids []int
		for id := range members {
			ids = append(ids, id)
		}
		if len(ids) == 0 {
			return -1, nil
		}
		sort.Ints(ids)
		id := ids[r.Intn(len(ids))]
		return id, members[id]
	}
	leave := func(id int) {
		say("leave %d", id)
		m := members[id]
		away(func() { m.sub.Unsubscribe() })
		if r.Intn(4) == 0 {
			away(func() { m.sub.Unsubscribe() })
		}
		delete(members, id)
	}
	receive := func(m *member[T]) {
		away(func() { <-m.ch })
		m.queue = m.queue[1:]
	}
	check := func(when string) {
		inUse := map[int]bool{}
		for _, m := range members {
			for _, id := range m.queue {
				inUse[id] = true
			}
		}
		left := l.kept(inUse)
		if len(left) > 0 {
			c.Violate("feed keeps", "%s: %s, %s: still held: %s\nhistory %d: %s", name, when, "no send in progress and the channels gone", summary(left), n, strings.Join(trace, "; "))
		}
		if l.missing(inUse) {
			c.HarnessError("a value in a live channel was collected")
		}
		runtime.KeepAlive(members)
		c.Count("collections compared", 1)
		c.Max("tokens", l.n)
		c.Eval(fmt.Sprint(name, len(members), len(inUse), l.n))
		c.Sample("%s, %s, %d of %d tokens in use: %s", name, when, len(inUse), l.n, strings.Join(trace, "; "))
	}
	steps := 4 + r.Intn(30)
	if r.Intn(6) == 0 {
		steps = 100 // crowds
	}
	for i := 0; i < steps; i++ {
		switch op := r.Intn(12); {
		case op < 4: // join
			id := next
			next++
			k := 1 + r.Intn(3)
			say("join %d cap %d", id, k)
			m := &member[T]{}
			away(func() {
				m.ch = make(chan T, k)
				if r.Intn(2) == 0 {
					t := l.token("a value in the buffer of a channel")
					m.queue = append(m.queue, t.id)
					m.ch <- mk(t)
				}
				m.sub = api.Subscribe(m.ch)
			})
			members[id] = m
		case op < 6: // leave
			if id, m := pick(); m != nil {
				leave(id)
			}
		case op < 8: // receive
			if _, m := pick(); m != nil && len(m.queue) > 0 {
				say("receive")
				receive(m)
			}
		case op < 11: // send
			var tid int
			ret := make(chan int)
			say("send to %d", len(members))
			away(func() {
				t := l.token("a value sent")
				tid = t.id
				v := mk(t)
				go func() { ret <- api.Send(v) }()
			})
			for _, m := range members {
				m.queue = append(m.queue, tid)
			}
			for {
				var full []int
				for id, m := range members {
					if len(m.queue) > cap(m.ch) {
						full = append(full, id)
					}
				}
				if len(full) == 0 {
					break
				}
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
				sort.Ints(full)
				id := full[r.Intn(len(full))]
				switch r.Intn(5) {
				case 0, 1, 2:
					say("receive from %d", id)
					receive(members[id])
				case 3:
					leave(id)
				case 4: // another one leaves
					if id, m := pick(); m != nil {
						leave(id)
					}
				}
			}
			<-ret
		case op == 11 && raw != nil: // misuse
			say("misuse")
			away(func() {
				defer func() { recover() }()
				t := l.token("a value of the wrong type sent")
				if next == 0 {
					next++
					raw.Subscribe(make(chan T)).Unsubscribe() // fixes the type
				}
				if r.Intn(2) == 0 {
					raw.Send(struct{ a *token }{t})
				} else {
					ch := make(chan struct{ a *token }, 1)
					ch <- struct{ a *token }{t}
					raw.Subscribe(ch)
				}
			})
		}
		if r.Intn(25) == 0 {
			check(fmt.Sprintf("after step %d", i))
		}
	}
	check("in the end")
	for {
		id, m := pick()
		if m == nil {
			break
		}
		leave(id)
	}
	check("with all subscriptions ended")
	runtime.KeepAlive(api)
}

// ------------------------------------------------------------- dispatcher

type evA struct{ t *token }
type evB struct {
	n int
	t *token
}

func muxRelease(c *vk.C, n int) {
	r := c.Rng("mux", n)
	l := newLedger()
	mux := new(event.TypeMux)
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	subs := map[int]*event.TypeMuxSubscription{}
	kinds := map[int]int{}
	ids := map[int]int{}
	next := 0
	order := func() (out []int) {
		for id := range subs {
			out = append(out, id)
		}
		sort.Ints(out)
		return
	}
	check := func(when string) {
		inUse := map[int]bool{}
		for k := range subs {
			inUse[ids[k]] = true
		}
		if left := l.kept(inUse); len(left) > 0 {
			c.Violate("dispatcher keeps", "%s, no post in progress: still held: %s\nhistory %d: %s", when, summary(left), n, strings.Join(trace, "; "))
		}
		runtime.KeepAlive(subs)
		c.Count("collections compared", 1)
		c.Eval(fmt.Sprint("mux", len(subs), l.n))
		c.Sample("dispatcher, %s, %d of %d tokens in use: %s", when, len(inUse), l.n, strings.Join(trace, "; "))
	}
	post := func(kind int) {
		ret := make(chan error)
		away(func() {
			t := l.token("an event posted")
			go func() {
				if kind == 1 {
					ret <- mux.Post(evA{t})
				} else {
					ret <- mux.Post(&evB{1, t})
				}
			}()
		})
		for _, k := range order() {
			if kinds[k]&kind == 0 {
				continue
			}
			s := subs[k]
			if r.Intn(8) == 0 {
				say("leave %d within", k)
				away(func() { s.Unsubscribe() })
				delete(subs, k)
				continue
			}
			away(func() { <-s.Chan() })
		}
		<-ret
	}
	for i, steps := 0, 3+r.Intn(20); i < steps; i++ {
		switch r.Intn(8) {
		case 0, 1, 2:
			k := next
			next++
			kind := 1 + r.Intn(3)
			say("join %d for %d", k, kind)
			away(func() {
				switch kind {
				case 1:
					subs[k] = mux.Subscribe(evA{})
				case 2:
					subs[k] = mux.Subscribe(&evB{})
				default:
					subs[k] = mux.Subscribe(&evB{}, evA{})
				}
				ids[k] = watch(l, subs[k], "a subscription ended")
			})
			kinds[k] = kind
		case 3, 4:
			if o := order(); len(o) > 0 {
				k := o[r.Intn(len(o))]
				say("leave %d", k)
				away(func() { subs[k].Unsubscribe() })
				delete(subs, k)
			}
		default:
			kind := 1 + r.Intn(2)
			say("post %d", kind)
			post(kind)
		}
		if r.Intn(20) == 0 {
			check(fmt.Sprintf("after step %d", i))
		}
	}
	check("in the end")
	if r.Intn(2) == 0 {
		say("stop")
		away(func() { mux.Stop() })
		subs = map[int]*event.TypeMuxSubscription{}
		away(func() {
			mux.Post(evA{l.token("an event posted to the stopped dispatcher")})
			s := mux.Subscribe(evA{})
			watch(l, s, "a subscription to the stopped dispatcher")
		})
		check("after Stop")
	}
	runtime.KeepAlive(mux)
}

// --------------------------------------------- producers, resubscriptions

// plainSub is a subscription of the harness.
type plainSub struct {
	t    *token
	err  chan error
	once sync.Once
}

func newPlain(t *token) *plainSub { return &plainSub{t: t, err: make(chan error, 1)} }

func (p *plainSub) Err() <-chan error { return p.err }
func (p *plainSub) Unsubscribe()      { p.once.Do(func() { close(p.err) }) }

func producerRelease(c *vk.C, n int) {
	r := c.Rng("producer", n)
	l := newLedger()
	var trace []string
	for i, k := 0, 1+r.Intn(6); i < k; i++ {
		how := r.Intn(3)
		again := r.Intn(3)
		trace = append(trace, fmt.Sprint("producer ", how, again))
		away(func() {
			t := l.token("what a producer uses")
			sub := event.NewSubscription(func(quit <-chan struct{}) error {
				defer runtime.KeepAlive(t)
				switch how {
				case 0:
					return nil
				case 1:
					return errors.New("failed")
				}
				<-quit
				return nil
			})
			if how < 2 {
				if again == 0 {
					return // nobody looks
				}
				<-sub.Err()
			}
			for j := 0; j <= again; j++ {
				sub.Unsubscribe()
			}
		})
	}
	for i, k := 0, r.Intn(4); i < k; i++ {
		fails := r.Intn(3)
		drops := r.Intn(3)
		how := r.Intn(3)
		withErr := r.Intn(2) == 0
		trace = append(trace, fmt.Sprint("resubscription ", fails, drops, how, withErr))
		away(func() {
			t := l.token("what a resubscription calls")
			calls, last := 0, make(chan *plainSub, 20)
			attempt := func() (event.Subscription, error) {
				defer runtime.KeepAlive(t)
				calls++
				if calls <= fails {
					return nil, errors.New("attempt")
				}
				p := newPlain(l.token("a subscription of a resubscription"))
				if drops--; drops >= 0 {
					p.err <- errors.New("dropped")
				} else if how == 0 {
					close(p.err) // ends well
					p.once.Do(func() {})
				}
				last <- p
				return p, nil
			}
			var sub event.Subscription
			if withErr {
				sub = event.ResubscribeErr(time.Microsecond, func(_ context.Context, err error) (event.Subscription, error) { return attempt() })
			} else {
				sub = event.Resubscribe(time.Microsecond, func(context.Context) (event.Subscription, error) { return attempt() })
			}
			switch how {
			case 0:
				for range sub.Err() {
				}
			case 1:
				sub.Unsubscribe()
			case 2:
				<-last
				sub.Unsubscribe()
			}
			if r.Intn(2) == 0 {
				sub.Unsubscribe()
			}
		})
	}
	if left := l.kept(nil); len(left) > 0 {
		c.Violate("subscription keeps", "all subscriptions ended: still held: %s\nhistory %d: %s", summary(left), n, strings.Join(trace, "; "))
	}
	if g := leftovers(); g != "" {
		c.Violate("goroutine", "all subscriptions ended, goroutines left:\n%s\nhistory %d: %s", g, n, strings.Join(trace, "; "))
	}
	c.Count("collections compared", 1)
	c.Eval(strings.Join(trace, ";"))
}

// ---------------------------------------------------------------- scopes

func scopeRelease(c *vk.C, n int) {
	r := c.Rng("scope", n)
	l := newLedger()
	sc := new(event.SubscriptionScope)
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	wraps := map[int]event.Subscription{}
	toks := map[int]int{}
	next := 0
	check := func(when string) {
		inUse := map[int]bool{}
		for k := range wraps {
			inUse[toks[k]] = true
		}
		if left := l.kept(inUse); len(left) > 0 {
			c.Violate("scope keeps", "%s: still held: %s\nhistory %d: %s", when, summary(left), n, strings.Join(trace, "; "))
		}
		runtime.KeepAlive(wraps)
		c.Count("collections compared", 1)
		c.Eval(fmt.Sprint("scope", len(wraps), l.n))
	}
	for i, steps := 0, 2+r.Intn(25); i < steps; i++ {
		if r.Intn(5) < 3 {
			k := next
			next++
			say("track %d", k)
			away(func() {
				t := l.token("a tracked subscription that ended")
				toks[k] = t.id
				wraps[k] = sc.Track(newPlain(t))
			})
		} else if len(wraps) > 0 {
			var o []int
			for k := range wraps {
				o = append(o, k)
			}
			sort.Ints(o)
			k := o[r.Intn(len(o))]
			times := 1 + r.Intn(2)
			say("leave %d", k)
			away(func() {
				for j := 0; j < times; j++ {
					wraps[k].Unsubscribe()
				}
			})
			delete(wraps, k)
		}
	}
	check("in the end")
	say("close")
	away(func() { sc.Close() })
	wraps = map[int]event.Subscription{}
	away(func() { sc.Track(newPlain(l.token("a subscription given to the closed scope"))) })
	check("after Close")
	if sc.Count() != 0 {
		c.Violate("scope count", "the closed scope counts %d", sc.Count())
	}
}

// ---------------------------------------------------------------- clocks

func clockRelease(c *vk.C, n int) {
	r := c.Rng("clock", n)
	l := newLedger()
	clk := new(mclock.Simulated)
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	type timer struct {
		t   mclock.Timer
		ch  mclock.ChanTimer
		due time.Duration
	}
	now := time.Duration(0)
	pending := map[int]timer{} // by token
	alarms := map[int]*mclock.Alarm{}
	armed := map[int]bool{}
	check := func(when string) {
		inUse := map[int]bool{}
		for id := range pending {
			inUse[id] = true
		}
		for id := range alarms {
			inUse[id] = true
		}
		if left := l.kept(inUse); len(left) > 0 {
			c.Violate("clock keeps", "%s: still held: %s\nhistory %d: %s", when, summary(left), n, strings.Join(trace, "; "))
		}
		lo, hi := len(pending), len(pending)
		for range armed {
			hi++
		}
		if k := clk.ActiveTimers(); k < lo || k > hi {
			c.Violate("clock timers", "%s: %d timers are active, want %d to %d\nhistory %d: %s", when, k, lo, hi, n, strings.Join(trace, "; "))
		}
		runtime.KeepAlive(pending)
		runtime.KeepAlive(alarms)
		c.Count("collections compared", 1)
		c.Eval(fmt.Sprint("clock", len(pending), len(alarms), l.n))
		c.Sample("clock, %s, %d of %d tokens in use: %s", when, len(inUse), l.n, strings.Join(trace, "; "))
	}
	some := func(m map[int]timer) int {
		var o []int
		for k := range m {
			o = append(o, k)
		}
		sort.Ints(o)
		return o[r.Intn(len(o))]
	}
	for i, steps := 0, 3+r.Intn(40); i < steps; i++ {
		switch r.Intn(8) {
		case 0, 1:
			d := time.Duration(r.Intn(60)) * time.Second
			away(func() {
				t := l.token("what the callback of a timer uses")
				say("timer %d in %v", t.id, d)
				id := t.id
				pending[id] = timer{t: clk.AfterFunc(d, func() { runtime.KeepAlive(t) }), due: now + d}
			})
		case 2:
			if len(pending) > 0 {
				id := some(pending)
				say("stop %d", id)
				away(func() {
					pending[id].t.Stop()
					if r.Intn(3) == 0 {
						pending[id].t.Stop()
					}
				})
				delete(pending, id)
			}
		case 3, 4:
			d := time.Duration(r.Intn(30)) * time.Second
			say("run %v", d)
			now += d
			away(func() { clk.Run(d) })
			for id, t := range pending {
				if t.due <= now {
					delete(pending, id)
				}
			}
			for id := range alarms {
				// An alarm may have fired, earlier than asked for even.
				if r.Intn(2) == 0 {
					away(func() { alarms[id].Stop() })
					delete(armed, id)
					delete(alarms, id)
				}
			}
		case 5:
			away(func() {
				a := mclock.NewAlarm(clk)
				id := watch(l, a, "an alarm stopped")
				say("alarm %d", id)
				alarms[id] = a
			})
		case 6:
			var o []int
			for id := range alarms {
				o = append(o, id)
			}
			sort.Ints(o)
			for _, id := range o {
				if r.Intn(2) == 0 {
					d := time.Duration(r.Intn(30)) * time.Second
					say("schedule %d in %v", id, d)
					armed[id] = true
					away(func() { alarms[id].Schedule(mclock.AbsTime(now + d)) })
				}
			}
		case 7:
			var o []int
			for id := range alarms {
				o = append(o, id)
			}
			sort.Ints(o)
			for _, id := range o {
				if r.Intn(2) == 0 {
					say("stop alarm %d", id)
					away(func() { alarms[id].Stop() })
					delete(alarms, id)
					delete(armed, id)
				}
			}
		}
		if r.Intn(30) == 0 {
			check(fmt.Sprintf("after step %d", i))
		}
	}
	check("in the end")
	runtime.KeepAlive(clk)
}

// ------------------------------------------------------------------- log

type sink struct {
	t *token
	n int
}

func (s *sink) Log(r *log.Record) error { s.n++; return nil }

func logRelease(c *vk.C, n int) {
	r := c.Rng("log", n)
	l := newLedger()
	root := log.New("k", n)
	var handlers []string
	buf := new(bytes.Buffer)
	build := func(t *token) log.Handler {
		var h log.Handler = &sink{t: t}
		kind := r.Intn(10)
		switch kind {
		case 0:
			h = log.StreamHandler(buf, log.LogfmtFormat())
		case 1:
			h = log.StreamHandler(buf, log.JSONFormat())
		case 2:
			h = log.StreamHandler(buf, log.TerminalFormat(false))
		case 3:
			h = log.LvlFilterHandler(log.LvlInfo, h)
		case 4:
			h = log.MultiHandler(h, log.DiscardHandler())
		case 5:
			h = log.FailoverHandler(h, h)
		case 6:
			h = log.LazyHandler(h)
		case 7:
			g := log.NewGlogHandler(h)
			g.Verbosity(log.LvlTrace)
			h = g
		case 8:
			h = log.CallerFuncHandler(log.CallerFileHandler(log.CallerStackHandler("%v", h)))
		case 9:
			h = log.MatchFilterHandler("k", n, h)
		}
		handlers = append(handlers, fmt.Sprint(kind))
		return log.SyncHandler(h)
	}
	cur := 0
	away(func() {
		t := l.token("a handler replaced")
		cur = t.id
		h := build(t)
		runtime.KeepAlive(t)
		root.SetHandler(h)
	})
	for i, steps := 0, 2+r.Intn(15); i < steps; i++ {
		switch r.Intn(6) {
		case 0:
			away(func() {
				t := l.token("a handler replaced")
				root.SetHandler(build(t))
				cur = t.id
			})
		case 1:
			away(func() {
				child := root.New("ctx", l.token("the context of a logger gone"))
				child.Info("m", "v", l.token("a value logged"))
				if r.Intn(2) == 0 {
					child.New("more", l.token("the context of a logger gone")).Warn("n")
				}
				if r.Intn(2) == 0 {
					child.SetHandler(&sink{t: l.token("the handler of a logger gone")})
					child.Error("o", "v", l.token("a value logged"))
				}
			})
		case 2:
			away(func() {
				t := l.token("a value logged")
				root.Error("lazy", "v", log.Lazy{Fn: func() int { return t.id }})
			})
		case 3:
			away(func() { root.Debug("m", "v", l.token("a value logged"), "odd") })
		default:
			away(func() {
				root.Info("m", "v", l.token("a value logged"), "w", &struct{ *token }{l.token("a value logged")})
			})
		}
	}
	inUse := map[int]bool{cur: true}
	if left := l.kept(inUse); len(left) > 0 {
		c.Violate("log keeps", "still held: %s\nhistory %d, handlers %v", summary(left), n, handlers)
	}
	runtime.KeepAlive(root)
	c.Count("collections compared", 1)
	c.Eval(fmt.Sprint("log", handlers, l.n))
	c.Count("tokens in log calls", l.n)
}

// ---------------------------------------------------------------- storms

// storm has everything used by many threads at once, and left.
func storm(c *vk.C, n int) {
	l := newLedger()
	var f event.Feed
	var g event.FeedOf[*token]
	mux := new(event.TypeMux)
	sc := new(event.SubscriptionScope)
	clk := new(mclock.Simulated)
	logger := log.New("storm", n)
	logger.SetHandler(log.SyncHandler(&sink{}))
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := c.Rng("storm", n*10+w)
			for i, k := 0, 5+r.Intn(25); i < k; i++ {
				switch r.Intn(6) {
				case 0, 1:
					ch := make(chan *token, 1+r.Intn(2))
					ch <- l.token("a value in the buffer of a channel")
					var sub event.Subscription
					if r.Intn(2) == 0 {
						sub = f.Subscribe(ch)
					} else {
						sub = g.Subscribe(ch)
					}
					if r.Intn(2) == 0 {
						sub = sc.Track(sub)
					}
					for j := r.Intn(3); j > 0; j-- {
						select {
						case <-ch:
						case <-time.After(time.Duration(r.Intn(200)) * time.Microsecond):
						}
					}
					sub.Unsubscribe()
				case 2, 3:
					v := l.token("a value sent")
					if r.Intn(2) == 0 {
						f.Send(v)
					} else {
						g.Send(v)
					}
				case 4:
					s := mux.Subscribe(evA{}, &evB{})
					watch(l, s, "a subscription ended")
					for j := r.Intn(3); j > 0; j-- {
						select {
						case <-s.Chan():
						case <-time.After(time.Duration(r.Intn(200)) * time.Microsecond):
						}
					}
					s.Unsubscribe()
					mux.Post(evA{l.token("an event posted")})
				case 5:
					t := l.token("what the callback of a timer uses")
					tm := clk.AfterFunc(time.Duration(r.Intn(5)), func() { runtime.KeepAlive(t) })
					if r.Intn(2) == 0 {
						tm.Stop()
					}
					clk.Run(time.Duration(r.Intn(3)))
					logger.Info("m", "v", l.token("a value logged"))
				}
			}
		}()
	}
	wg.Wait()
	clk.Run(time.Hour)
	if k := clk.ActiveTimers(); k != 0 {
		c.Violate("clock timers", "storm %d: %d timers are active in the end", n, k)
	}
	if left := l.kept(nil); len(left) > 0 {
		c.Violate("storm keeps", "storm %d, all subscriptions ended, all calls returned: still held: %s", n, summary(left))
	}
	runtime.KeepAlive(&f)
	runtime.KeepAlive(&g)
	runtime.KeepAlive(mux)
	runtime.KeepAlive(sc)
	runtime.KeepAlive(clk)
	runtime.KeepAlive(logger)
	c.Count("tokens in storms", l.n)
	c.Count("collections compared", 1)
	c.Eval(fmt.Sprint("storm", l.n))
}

func TestC38(t *testing.T) {
	vk.Run(t, "C38", "histories over live feeds, dispatchers, scopes, clocks and loggers whose values, channels, callbacks and handlers carry cleanups; at quiet points garbage is collected and everything no longer in use must be gone, and no goroutine of the library be left; distinct = component, members, tokens", func(c *vk.C) {
		type wrapped struct {
			n int
			t *token
		}
		for i := 0; i < c.N(100, 2000) && found.Load() < 3; i++ {
			feedRelease(c, "Feed of pointers", func(t *token) *token { return t }, true, i)
			feedRelease(c, "FeedOf pointers", func(t *token) *token { return t }, false, i)
			feedRelease(c, "Feed of structs", func(t *token) wrapped { return wrapped{1, t} }, true, i)
			feedRelease(c, "FeedOf structs", func(t *token) wrapped { return wrapped{1, t} }, false, i)
			feedRelease(c, "Feed of slices", func(t *token) []*token { return []*token{t} }, true, i)
			feedRelease(c, "FeedOf interfaces", func(t *token) interface{} { return t }, false, i)
			feedRelease(c, "Feed of functions", func(t *token) func() *token { return func() *token { return t } }, true, i)
		}
		for i := 0; i < c.N(300, 5000) && found.Load() < 6; i++ {
			muxRelease(c, i)
			producerRelease(c, i)
			scopeRelease(c, i)
			clockRelease(c, i)
			logRelease(c, i)
		}
		for i := 0; i < c.N(100, 3000) && found.Load() < 8; i++ {
			storm(c, i)
		}
		if g := leftovers(); g != "" {
			c.Violate("goroutine", "goroutines left:\n%s", g)
		}
	})
}
