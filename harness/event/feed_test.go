package event

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"verifharness/vk"
)

// feedAPI hides which of the two feed variants is driven.
type feedAPI interface {
	Subscribe(ch chan int) event.Subscription
	Send(v int) int
}

type untyped struct {
	f event.Feed
	n atomic.Int64
}

// Subscribe passes every other channel as a send-only one.
func (u *untyped) Subscribe(ch chan int) event.Subscription {
	if u.n.Add(1)%2 == 0 {
		return u.f.Subscribe((chan<- int)(ch))
	}
	return u.f.Subscribe(ch)
}
func (u *untyped) Send(v int) int { return u.f.Send(v) }

type typed struct{ f event.FeedOf[int] }

func (u *typed) Subscribe(ch chan int) event.Subscription { return u.f.Subscribe(ch) }
func (u *typed) Send(v int) int                           { return u.f.Send(v) }

func newFeed(variant int) (feedAPI, string) {
	if variant%2 == 0 {
		return new(untyped), "Feed"
	}
	return new(typed), "FeedOf"
}

func errClosed(s event.Subscription) (closed bool, err error, ok bool) {
	select {
	case e, open := <-s.Err():
		return !open, e, true
	default:
		return false, nil, false
	}
}

// ---------------------------------------------------------------------------
// C01, part A: sequential histories against an exact model.

func feedSequential(c *vk.C, variant, n int) {
	f, name := newFeed(variant)
	r := c.Rng("seq"+name, n)
	type msub struct {
		ch     chan int
		sub    event.Subscription
		active bool
	}
	var subs []*msub
	var trace []string
	sig := make([]byte, 0, 64)
	val := 0
	steps := 5 + r.Intn(40)
	wSub, wUnsub := 1+r.Intn(5), r.Intn(5)
	crowd := r.Intn(25) == 0 // hundreds of channels
	if crowd {
		steps *= 3
	}
	bad := func(s string, a ...interface{}) {
		c.Violate(name+": "+s, "%s; %s history %d: %s", fmt.Sprintf(s, a...), name, n, strings.Join(trace, " "))
	}
	for i := 0; i < steps; i++ {
		switch k := r.Intn(wSub + wUnsub + 4); {
		case k < wSub:
			many := 1
			if crowd && r.Intn(6) == 0 {
				many = 1 + r.Intn(120)
			}
			for ; many > 0; many-- {
				m := &msub{ch: make(chan int, 8), active: true}
				m.sub = f.Subscribe(m.ch)
				subs = append(subs, m)
				trace = append(trace, fmt.Sprintf("sub%d", len(subs)-1))
				sig = append(sig, 's')
			}
		case k < wSub+wUnsub && len(subs) > 0:
			j := r.Intn(len(subs))
			trace = append(trace, fmt.Sprintf("unsub%d", j))
			sig = append(sig, 'u', byte('0'+j%10))
			if subs[j].active {
				if _, _, ok := errClosed(subs[j].sub); ok {
					bad("error channel ready before unsubscribe")
				}
			}
			if !c.NoPanic(name+" Unsubscribe "+strings.Join(trace, " "), subs[j].sub.Unsubscribe) {
				return
			}
			subs[j].active = false
			if closed, err, ok := errClosed(subs[j].sub); !ok || !closed || err != nil {
				bad("error channel not closed empty after unsubscribe")
			}
		default:
			val++
			trace = append(trace, fmt.Sprintf("send(%d)", val))
			sig = append(sig, '!')
			want := 0
			for _, m := range subs {
				if m.active {
					want++
				}
			}
			got := -1
			if !c.NoPanic(name+" Send "+strings.Join(trace, " "), func() { got = f.Send(val) }) {
				return
			}
			if got != want {
				bad("send reported %d deliveries, %d channels subscribed", got, want)
			}
			for j, m := range subs {
				var got []int
				for len(m.ch) > 0 {
					got = append(got, <-m.ch)
				}
				if m.active && (len(got) != 1 || got[0] != val) {
					bad("subscribed channel received wrong values")
					_ = j
				}
				if !m.active && len(got) != 0 {
					bad("unsubscribed channel received a value")
				}
			}
			c.Count("sends", 1)
			c.Count("deliveries", want)
		}
	}
	c.Eval(name + string(sig))
	c.Sample("%s: %s", name, strings.Join(trace, " "))
}

// ---------------------------------------------------------------------------
// C01, part B: concurrent runs, event log checked offline.

type sendRec struct {
	v, n int
	b, e int64
}
type subRec struct {
	id         int
	ch         chan int
	sub        event.Subscription
	sb, se     int64
	ub, ue     int64 // 0: never
	got        []int
	lenAtUnsub int
}

func feedConcurrent(c *vk.C, variant, n int) {
	f, name := newFeed(variant)
	r := c.Rng("conc"+name, n)
	var clock atomic.Int64
	tick := func() int64 { return clock.Add(1) }
	nSenders := 1 + r.Intn(4)
	nSend := 3 + r.Intn(12)
	nSubs := 1 + r.Intn(8)
	if r.Intn(20) == 0 {
		nSubs = 20 + r.Intn(30)
	}
	procs := []int{1, 2, 4, 8}[r.Intn(4)]
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))

	var mu sync.Mutex
	var sends []sendRec
	var subs []*subRec
	var sendersDone = make(chan struct{})
	var wgS, wgR sync.WaitGroup

	for s := 0; s < nSenders; s++ {
		sr := c.Rng(fmt.Sprintf("conc%s.s%d", name, s), n)
		wgS.Add(1)
		go func(s int) {
			defer wgS.Done()
			for i := 0; i < nSend; i++ {
				vk.Yield(sr)
				rec := sendRec{v: s*1000 + i + 1}
				rec.b = tick()
				rec.n = f.Send(rec.v)
				rec.e = tick()
				mu.Lock()
				sends = append(sends, rec)
				mu.Unlock()
			}
		}(s)
	}
	for j := 0; j < nSubs; j++ {
		jr := c.Rng(fmt.Sprintf("conc%s.r%d", name, j), n)
		wgR.Add(1)
		go func(j int) {
			defer wgR.Done()
			rounds := 1 + jr.Intn(4)
			for k := 0; k < rounds; k++ {
				rec := &subRec{id: j*100 + k, ch: make(chan int, []int{0, 0, 1, 4, 64}[jr.Intn(5)])}
				mu.Lock()
				subs = append(subs, rec)
				mu.Unlock()
				vk.Yield(jr)
				rec.sb = tick()
				rec.sub = f.Subscribe(rec.ch)
				rec.se = tick()
				limit := jr.Intn(nSenders * nSend)
				if k == rounds-1 && jr.Intn(2) == 0 {
					limit = 1 << 30
				}
				stop := sendersDone
			recv:
				for i := 0; i < limit; i++ {
					if jr.Intn(4) == 0 {
						vk.Yield(jr)
					}
					select {
					case v := <-rec.ch:
						rec.got = append(rec.got, v)
					case <-stop:
						break recv
					}
				}
				if limit == 1<<30 && jr.Intn(2) == 0 {
					// never unsubscribed
					rec.lenAtUnsub = len(rec.ch)
					continue
				}
				if jr.Intn(2) == 0 {
					vk.Yield(jr)
				}
				// No receiver runs while unsubscribing: it must not need one.
				conc := jr.Intn(3) == 0
				var other sync.WaitGroup
				rec.ub = tick()
				if conc {
					other.Add(1)
					go func() { defer other.Done(); rec.sub.Unsubscribe() }()
				}
				rec.sub.Unsubscribe()
				rec.lenAtUnsub = len(rec.ch)
				rec.ue = tick()
				other.Wait()
				if closed, err, ok := errClosed(rec.sub); !ok || !closed || err != nil {
					c.ViolateAsync("err chan", "%s: error channel not closed empty after unsubscribe", name)
				}
			}
		}(j)
	}
	wgS.Wait()
	close(sendersDone)
	wgR.Wait()

	// ------------------------------------------------ offline checker
	for _, s := range subs {
		if len(s.ch) != s.lenAtUnsub {
			c.Violate("late delivery", "%s run %d: channel %d held %d values when unsubscribe returned and %d at the end", name, n, s.id, s.lenAtUnsub, len(s.ch))
		}
		for len(s.ch) > 0 {
			s.got = append(s.got, <-s.ch)
		}
	}
	byVal := map[int]*sendRec{}
	recvd := map[int]int{}
	for i := range sends {
		byVal[sends[i].v] = &sends[i]
	}
	deliveries := 0
	for _, s := range subs {
		seen := map[int]bool{}
		for _, v := range s.got {
			deliveries++
			recvd[v]++
			if byVal[v] == nil {
				c.Violate("phantom", "%s run %d: channel received %d, never sent", name, n, v)
				continue
			}
			if seen[v] {
				c.Violate("duplicate", "%s run %d: channel %d received %d twice", name, n, s.id, v)
			}
			seen[v] = true
			snd := byVal[v]
			if snd.e < s.sb {
				c.Violate("past value", "%s run %d: channel %d received %d, whose send returned before the subscription was requested", name, n, s.id, v)
			}
			if s.ue != 0 && snd.b > s.ue {
				c.Violate("after unsub", "%s run %d: channel %d received %d, sent after unsubscribe returned", name, n, s.id, v)
			}
		}
		for i := range sends {
			snd := &sends[i]
			if s.se < snd.b && (s.ub == 0 || snd.e < s.ub) && !seen[snd.v] {
				c.Violate("lost", "%s run %d: channel %d subscribed over the whole send of %d but did not receive it", name, n, s.id, snd.v)
			}
		}
	}
	for i := range sends {
		if recvd[sends[i].v] != sends[i].n {
			c.Violate("count", "%s run %d: send of %d reported %d deliveries, channels received %d", name, n, sends[i].v, sends[i].n, recvd[sends[i].v])
		}
	}
	checkOrder(c, name, n, subs, sends)
	c.Count("deliveries", deliveries)
	c.Count("sends", len(sends))
	// interleaving signature: the global order of begin/end marks
	type mk struct {
		t int64
		s string
	}
	var ms []mk
	for _, s := range sends {
		ms = append(ms, mk{s.b, fmt.Sprintf("b%d", s.v)}, mk{s.e, fmt.Sprintf("e%d:%d", s.v, s.n)})
	}
	for _, s := range subs {
		ms = append(ms, mk{s.se, fmt.Sprintf("s%d", s.id)}, mk{s.ue, fmt.Sprintf("u%d", s.id)})
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].t < ms[j].t })
	var sb strings.Builder
	for _, m := range ms {
		sb.WriteString(m.s)
	}
	c.Eval(sb.String())
	c.Sample("%s concurrent: %d senders x %d, %d subscriptions, log %s", name, nSenders, nSend, len(subs), sb.String())
}

// checkOrder: the union of each channel's reception order and the real-time
// order of non-overlapping sends must be acyclic.
func checkOrder(c *vk.C, name string, n int, subs []*subRec, sends []sendRec) {
	idx := map[int]int{}
	for i, s := range sends {
		idx[s.v] = i
	}
	N := len(sends)
	adj := make([]map[int]bool, N)
	for i := range adj {
		adj[i] = map[int]bool{}
	}
	for _, s := range subs {
		for i := 1; i < len(s.got); i++ {
			a, ok1 := idx[s.got[i-1]]
			b, ok2 := idx[s.got[i]]
			if ok1 && ok2 {
				adj[a][b] = true
			}
		}
	}
	for i := range sends {
		for j := range sends {
			if sends[i].e < sends[j].b {
				adj[i][j] = true
			}
		}
	}
	state := make([]int, N)
	var visit func(i int) bool
	visit = func(i int) bool {
		state[i] = 1
		for j := range adj[i] {
			if state[j] == 1 || state[j] == 0 && visit(j) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := range sends {
		if state[i] == 0 && visit(i) {
			c.Violate("order", "%s run %d: channels disagree about the order of sends", name, n)
			return
		}
	}
}

func TestC01(t *testing.T) {
	vk.Run(t, "C01", "random sequential histories of subscribe/unsubscribe/send checked step by step against an exact model, and concurrent runs whose event logs are checked offline; distinct = different operation sequence (sequential) or different global order of begin/end marks with delivery counts (concurrent)", func(c *vk.C) {
		for v := 0; v < 2; v++ {
			for i := 0; i < c.N(1500, 40000); i++ {
				feedSequential(c, v, i)
			}
			for i := 0; i < c.N(400, 8000); i++ {
				feedConcurrent(c, v, i)
			}
			for i := 0; i < c.N(300, 8000); i++ {
				feedUnsubCrowd(c, v, i)
			}
			for i := 0; i < c.N(4, 40); i++ {
				feedVast(c, v, i)
			}
		}
	})
}

// ---------------------------------------------------------------------------
// C02: backpressure and unsubscription while sends are blocked; exact model at
// every quiescent point of a synctest bubble.

type slowSub struct {
	id      int
	ch      chan int
	sub     event.Subscription
	active  bool
	buf     []int // model: values in the buffer
	frozen  bool
	chanCap int
}

type modelSend struct {
	v       int
	pending map[int]bool
	n       int
	done    *atomic.Bool
	got     *atomic.Int64
}

func feedSlow(t *testing.T, c *vk.C, variant, n int) {
	synctest.Test(t, func(t *testing.T) {
		f, name := newFeed(variant)
		r := c.Rng("slow"+name, n)
		var subs []*slowSub
		var queue []*modelSend // queue[0] is active
		var trace []string
		val := 0
		die := func(sig string, a ...interface{}) {
			c.Die(name+": "+sig, "%s; %s script %d: %s\n%s", fmt.Sprintf(sig, a...), name, n, strings.Join(trace, " "), vk.Stacks())
		}
		settle := func() {
			for len(queue) > 0 {
				s := queue[0]
				if s.pending == nil {
					s.pending = map[int]bool{}
					for _, m := range subs {
						if m.active {
							s.pending[m.id] = true
						}
					}
				}
				for id := range s.pending {
					m := subs[id]
					if len(m.buf) < m.chanCap {
						m.buf = append(m.buf, s.v)
						delete(s.pending, id)
						s.n++
					}
				}
				if len(s.pending) > 0 {
					return
				}
				queue = queue[1:]
				trace = append(trace, fmt.Sprintf("done(%d)=%d", s.v, s.n))
				// real side
				if !s.done.Load() {
					die("a send did not return although every subscribed channel accepted it or was unsubscribed")
				}
				if int(s.got.Load()) != s.n {
					die("send reported %d deliveries, expected %d", s.got.Load(), s.n)
				}
			}
		}
		patient := r.Intn(10) == 0 // weeks between the steps
		check := func() {
			if patient {
				time.Sleep(700 * time.Hour)
			}
			synctest.Wait()
			settle()
			for _, s := range queue {
				if s.done.Load() {
					die("a send returned while a subscribed channel had not accepted the value")
				}
			}
			for _, m := range subs {
				if len(m.ch) != len(m.buf) {
					die("a channel buffer holds %d values, expected %d", len(m.ch), len(m.buf))
				}
				if m.active {
					if _, _, ok := errClosed(m.sub); ok {
						die("error channel ready while subscribed")
					}
				}
			}
		}
		steps, maxSubs := 8+r.Intn(40), 8
		if r.Intn(20) == 0 {
			steps, maxSubs = 150, 40
		}
		for i := 0; i < steps+80; i++ {
			k := r.Intn(10)
			if i >= steps { // wind down: unsubscribe or drain everything
				if len(queue) == 0 {
					break
				}
				k = []int{4, 7}[r.Intn(2)]
				if i > steps+30 {
					k = 7
				}
			}
			switch {
			case k < 2 && len(subs) < maxSubs:
				cp := []int{0, 0, 0, 1, 2}[r.Intn(5)]
				m := &slowSub{id: len(subs), ch: make(chan int, cp), active: true, chanCap: cp}
				m.sub = f.Subscribe(m.ch)
				subs = append(subs, m)
				trace = append(trace, fmt.Sprintf("sub%d(cap%d)", m.id, cp))
			case k < 4 && len(queue) < 2:
				val++
				s := &modelSend{v: val, done: new(atomic.Bool), got: new(atomic.Int64)}
				trace = append(trace, fmt.Sprintf("send(%d)", val))
				queue = append(queue, s)
				go func() {
					s.got.Store(int64(f.Send(s.v)))
					s.done.Store(true)
				}()
			case k < 7 && len(subs) > 0:
				m := subs[r.Intn(len(subs))]
				trace = append(trace, fmt.Sprintf("recv%d", m.id))
				select {
				case v := <-m.ch:
					if len(m.buf) > 0 {
						if v != m.buf[0] {
							die("a channel received %d, expected %d", v, m.buf[0])
						}
						m.buf = m.buf[1:]
					} else if len(queue) > 0 && queue[0].pending[m.id] && queue[0].v == v {
						delete(queue[0].pending, m.id)
						queue[0].n++
					} else {
						die("a channel received unexpected value %d", v)
					}
				default:
					if len(m.buf) > 0 || len(queue) > 0 && queue[0].pending[m.id] {
						die("nothing to receive although a send of this value is in progress and the channel is subscribed")
					}
				}
			case len(subs) > 0:
				m := subs[r.Intn(len(subs))]
				if i > steps+30 {
					for _, x := range subs {
						if x.active {
							m = x
						}
					}
				}
				trace = append(trace, fmt.Sprintf("unsub%d", m.id))
				var ret atomic.Int64
				calls := 1 + r.Intn(2)
				for q := 0; q < calls; q++ {
					go func() { m.sub.Unsubscribe(); ret.Add(1) }()
				}
				synctest.Wait()
				if ret.Load() != int64(calls) {
					die("unsubscribe blocked")
				}
				if closed, err, ok := errClosed(m.sub); !ok || !closed || err != nil {
					die("error channel not closed empty after unsubscribe")
				}
				if m.active {
					m.active = false
					if len(queue) > 0 && queue[0].pending != nil {
						delete(queue[0].pending, m.id)
					}
				}
			}
			check()
		}
		if len(queue) > 0 {
			die("sends outstanding after everything was unsubscribed")
		}
		c.Eval(name + strings.Join(trace, " "))
		c.Count("quiescent_points", steps)
		c.Sample("%s: %s", name, strings.Join(trace, " "))
	})
}

// feedChurn has senders in a tight loop and subscribers that come, take a value
// and go: every call must return. A wedged feed parks every goroutine, which
// the watchdog reports.
func feedChurn(c *vk.C, variant, n int) {
	f, name := newFeed(variant)
	r := c.Rng("churn"+name, n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{2, 4, 8}[r.Intn(3)]))
	nSend, nSub, sends := 2+r.Intn(5), 2+r.Intn(5), 100+r.Intn(150)
	capacity := r.Intn(2)
	var sendersDone = make(chan struct{})
	var wgS, wgR sync.WaitGroup
	var unsubs atomic.Int64
	for s := 0; s < nSend; s++ {
		wgS.Add(1)
		go func() {
			defer wgS.Done()
			for i := 0; i < sends; i++ {
				f.Send(i)
			}
		}()
	}
	for j := 0; j < nSub; j++ {
		take := r.Intn(3)
		wgR.Add(1)
		go func() {
			defer wgR.Done()
			for {
				ch := make(chan int, capacity)
				sub := f.Subscribe(ch)
				over := false
				for k := 0; k < take && !over; k++ {
					select {
					case <-ch:
					case <-sendersDone:
						over = true
					}
				}
				sub.Unsubscribe()
				unsubs.Add(1)
				if len(ch) > 0 {
					<-ch
				}
				select {
				case <-sendersDone:
					return
				default:
				}
			}
		}()
	}
	wgS.Wait()
	close(sendersDone)
	wgR.Wait()
	c.Eval(fmt.Sprintf("churn %s %d %d %d %d", name, nSend, nSub, capacity, unsubs.Load()))
	c.Count("churn_unsubscribes", int(unsubs.Load()))
}

// feedUnsubCrowd: several threads end the same subscription while sends over
// many channels are running. Whoever returns has seen the last value.
func feedUnsubCrowd(c *vk.C, variant, n int) {
	f, name := newFeed(variant)
	r := c.Rng("unsubcrowd"+name, n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{2, 4, 8, 8}[r.Intn(4)]))
	chans := make([]chan int, 1+r.Intn(200))
	subs := make([]event.Subscription, len(chans))
	sends := 2 + r.Intn(6)
	nSend := 1 + r.Intn(3)
	vk.Begin("%s: several unsubscriptions of one channel during sends over %d channels, run %d", name, len(chans), n)
	for i := range chans {
		chans[i] = make(chan int, sends*nSend)
		subs[i] = f.Subscribe(chans[i])
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	var total atomic.Int64
	for s := 0; s < nSend; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < sends; i++ {
				total.Add(int64(f.Send(i)))
			}
		}()
	}
	type seen struct{ ch, had int }
	nEnd := 1 + r.Intn(5)
	if nEnd > len(chans) {
		nEnd = len(chans)
	}
	callers := 2 + r.Intn(2)
	views := make([]seen, nEnd*callers)
	for k, ch := range r.Perm(len(chans))[:nEnd] {
		for u := 0; u < callers; u++ {
			slot, gr := k*callers+u, c.Rng(fmt.Sprint("unsubcrowd", name, k, u), n)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if gr.Intn(2) == 0 {
					vk.Yield(gr)
				}
				subs[ch].Unsubscribe()
				views[slot] = seen{ch, len(chans[ch])}
			}()
		}
	}
	close(start)
	wg.Wait()
	vk.End()
	ended := map[int]bool{}
	var sum int64
	for _, v := range views {
		ended[v.ch] = true
		if got := len(chans[v.ch]); got != v.had {
			c.Violate("late delivery", "%s run %d: a channel held %d values when an Unsubscribe of it returned and %d at the end", name, n, v.had, got)
		}
	}
	for i, ch := range chans {
		sum += int64(len(ch))
		if !ended[i] && len(ch) != sends*nSend {
			c.Violate("lost", "%s run %d: a channel nobody unsubscribed holds %d of %d values", name, n, len(ch), sends*nSend)
		}
	}
	if sum != total.Load() {
		c.Violate("count", "%s run %d: sends reported %d deliveries, the channels hold %d", name, n, total.Load(), sum)
	}
	c.Count("crowd_unsubscribes", len(views))
	c.Eval(fmt.Sprintf("crowd %s %d %d %v", name, len(chans), sum, views))
}

func TestC02(t *testing.T) {
	vk.Run(t, "C02", "random scripts of slow receivers, blocked sends and unsubscriptions; after every step the process is brought to quiescence and compared with an exact model (who is blocked, what is buffered, what was counted); distinct = different script+outcome trace", func(c *vk.C) {
		for v := 0; v < 2; v++ {
			for i := 0; i < c.N(2500, 60000); i++ {
				feedSlow(t, c, v, i)
			}
			for i := 0; i < c.N(150, 5000); i++ {
				feedChurn(c, v, i)
			}
			for i := 0; i < c.N(300, 8000); i++ {
				feedUnsubCrowd(c, v, i)
			}
			for i := 0; i < c.N(6, 60); i++ {
				synctest.Test(t, func(t *testing.T) { feedStuckVast(c, v, i) })
			}
		}
	})
}

var _ = rand.Int
var _ = time.Now
