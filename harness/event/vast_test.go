package event

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"

	"flychain/event"
	"verifharness/vk"
)

// Populations far beyond what the other histories build up: nothing the
// system promises depends on how many take part.

// feedVast: one feed, thousands of buffered subscriptions and some hundred
// whose receivers take their time.
func feedVast(c *vk.C, variant, n int) {
	r := c.Rng("feedvast", n)
	f, name := newFeed(variant)
	total := []int{300, 1200, 5000, 9000}[n%4] + r.Intn(300)
	slow := r.Intn(150)
	rounds := 3 + r.Intn(3)
	type member struct {
		ch   chan int
		sub  event.Subscription
		want []int
		got  []int
		wg   sync.WaitGroup
		slow bool
	}
	ms := make([]*member, total)
	vk.Begin("%s with %d subscriptions, %d of them unbuffered", name, total, slow)
	for i := range ms {
		m := &member{slow: i%((total/(slow+1))+1) == 1}
		if m.slow {
			m.ch = make(chan int)
			m.wg.Add(1)
			go func() {
				defer m.wg.Done()
				for v := range m.ch {
					m.got = append(m.got, v)
				}
			}()
		} else {
			m.ch = make(chan int, rounds)
		}
		m.sub = f.Subscribe(m.ch)
		ms[i] = m
	}
	left := total
	for k := 1; k <= rounds; k++ {
		if g := f.Send(k); g != left {
			c.Violate("vast count", "%s: Send with %d subscriptions returned %d", name, left, g)
		}
		for _, m := range ms {
			if m.sub != nil {
				m.want = append(m.want, k)
			}
		}
		for _, i := range r.Perm(total)[:r.Intn(total/3)] {
			if m := ms[i]; m.sub != nil {
				m.sub.Unsubscribe()
				m.sub = nil
				left--
			}
		}
	}
	for i, m := range ms {
		close(m.ch)
		if m.slow {
			m.wg.Wait()
		} else {
			for v := range m.ch {
				m.got = append(m.got, v)
			}
		}
		if fmt.Sprint(m.got) != fmt.Sprint(m.want) {
			c.Violate("vast delivery", "%s: subscription %d of %d received %v, want %v", name, i, total, m.got, m.want)
		}
		if m.sub != nil {
			m.sub.Unsubscribe()
		}
	}
	if g := f.Send(0); g != 0 {
		c.Violate("vast count", "%s: Send with nobody left of %d returned %d", name, total, g)
	}
	vk.End()
	c.Count("subscriptions of vast feeds", total)
	c.Eval(fmt.Sprint("vast", name, total, slow, left))
}

// muxVast: thousands of subscriptions to one type. A post gets to every one
// of them and does not return while one that has not received it is there.
func muxVast(c *vk.C, n int) {
	r := c.Rng("muxvast", n)
	mux := new(event.TypeMux)
	total := []int{200, 1500, 4000}[n%3] + r.Intn(100)
	rounds := 4
	gate := make(chan struct{})
	stubborn := map[int]bool{}
	switch lo := total * (n / 3 % 3) / 3; n % 2 { // where the posts get stuck
	case 0:
		stubborn[lo+r.Intn(total-lo)] = true
	default:
		stubborn[total-1-r.Intn(20)] = true
	}
	subs := make([]*event.TypeMuxSubscription, total)
	got := make([][]int, total)
	var wg sync.WaitGroup
	vk.Begin("mux with %d subscriptions to one type", total)
	for i := range subs {
		if i%2 == 0 {
			subs[i] = mux.Subscribe(evA{})
		} else {
			subs[i] = mux.Subscribe(evB{}, evA{})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if stubborn[i] {
				<-gate
			}
			for ev := range subs[i].Chan() {
				got[i] = append(got[i], ev.Data.(evA).N)
			}
		}()
	}
	var done atomic.Bool
	go func() {
		for k := 1; k <= rounds; k++ {
			if err := mux.Post(evA{k}); err != nil {
				c.ViolateAsync("vast post", "Post to %d subscriptions: %v", total, err)
			}
		}
		done.Store(true)
		mux.Stop()
	}()
	synctest.Wait()
	if done.Load() {
		c.Violate("vast post returned", "all posts returned although %d of %d subscriptions did not receive", len(stubborn), total)
	}
	close(gate)
	wg.Wait()
	if !done.Load() {
		c.Violate("vast stopped", "channels of %d subscriptions closed before the last post returned", total)
	}
	want := fmt.Sprint([]int{1, 2, 3, 4})
	for i, g := range got {
		if fmt.Sprint(g) != want {
			c.Violate("vast delivery", "subscription %d of %d received %v, want %v", i, total, g, want)
		}
	}
	vk.End()
	c.Count("subscriptions of vast muxes", total)
	c.Eval(fmt.Sprint("vast", total, len(stubborn)))
}

// plainSub counts how often it is unsubscribed.
type plainSub struct {
	err  chan error
	n    *atomic.Int64
	mine int
}

func (p *plainSub) Err() <-chan error { return p.err }
func (p *plainSub) Unsubscribe()      { p.mine++; p.n.Add(1) }

// scopeVast: more subscriptions in a scope than any process is likely to hold.
func scopeVast(c *vk.C, n int) {
	r := c.Rng("scopevast", n)
	var sc event.SubscriptionScope
	total := []int{700, 3000, 9000, 70000}[n%4] + r.Intn(300)
	var ended atomic.Int64
	subs := make([]*plainSub, total)
	wraps := make([]event.Subscription, total)
	for i := range subs {
		subs[i] = &plainSub{err: make(chan error), n: &ended}
		if wraps[i] = sc.Track(subs[i]); wraps[i] == nil {
			c.Violate("vast track", "the %dth Track on an open scope returned nil", i+1)
			return
		}
		if i%1000 == 0 || i == total-1 {
			if g := sc.Count(); g != i+1 {
				c.Violate("vast count", "Count()=%d with %d tracked", g, i+1)
			}
		}
	}
	gone := r.Perm(total)[:r.Intn(total/2)]
	for _, i := range gone {
		wraps[i].Unsubscribe()
	}
	if g, e := sc.Count(), int(ended.Load()); g != total-len(gone) || e != len(gone) {
		c.Violate("vast count", "Count()=%d and %d unsubscribed after %d of %d wrappers were unsubscribed", g, e, len(gone), total)
	}
	sc.Close()
	for i, s := range subs {
		if s.mine != 1 {
			c.Violate("vast close", "subscription %d of %d was unsubscribed %d times", i, total, s.mine)
		}
	}
	if g := sc.Count(); g != 0 {
		c.Violate("vast close", "Count()=%d after Close", g)
	}
	c.Count("subscriptions of vast scopes", total)
	c.Eval(fmt.Sprint("vast", total, len(gone)))
}

// feedStuckVast: a send stuck on hundreds of receivers, some of which go,
// some of which receive, in any order. To be run in a bubble.
func feedStuckVast(c *vk.C, variant, n int) {
	r := c.Rng("feedstuckvast", n)
	f, name := newFeed(variant)
	total := []int{300, 705, 1100}[n%3] + r.Intn(100)
	chans := make([]chan int, total)
	subs := make([]event.Subscription, total)
	for i := range chans {
		chans[i] = make(chan int)
		subs[i] = f.Subscribe(chans[i])
	}
	live := total
	vk.Begin("%s: sends stuck on %d channels", name, total)
	defer vk.End()
	alive := make([]bool, total)
	for i := range alive {
		alive[i] = true
	}
	for round := 1; round <= 2; round++ {
		var ret atomic.Int64
		ret.Store(-1)
		go func() { ret.Store(int64(f.Send(round))) }()
		synctest.Wait()
		got := 0
		order := r.Perm(total)
		pGo := []int{0, 2, 5, 9}[r.Intn(4)]
		for k, i := range order {
			if !alive[i] {
				continue
			}
			if live > 1 && r.Intn(10) < pGo && (round > 1 || k%2 == 0) {
				subs[i].Unsubscribe()
				alive[i] = false
				live--
				select {
				case <-chans[i]:
					c.Violate("stuck late", "%s: of %d stuck channels, one received after its Unsubscribe returned", name, total)
				default:
				}
			} else {
				synctest.Wait()
				select {
				case v := <-chans[i]:
					if got++; v != round {
						c.Violate("stuck value", "%s: of %d stuck channels, one received %d instead of %d", name, total, v, round)
					}
				default:
					c.Violate("stuck lost", "%s: of %d stuck channels, the send (number %d) offers nothing to number %d, after %d others", name, total, round, i, k)
				}
				if k%20 == 0 {
					synctest.Wait()
					select {
					case v := <-chans[i]:
						c.Violate("stuck twice", "%s: of %d stuck channels, number %d received %d again", name, total, i, v)
					default:
					}
				}
			}
		}
		synctest.Wait()
		if g := ret.Load(); g != int64(got) {
			c.Violate("stuck count", "%s: a send stuck on %d channels, %d of which received, returned %d (-1: has not)", name, total, got, g)
			break
		}
	}
	for i, s := range subs {
		if alive[i] {
			s.Unsubscribe()
		}
	}
	c.Count("channels of vast stuck sends", total)
	c.Eval(fmt.Sprint("stuck", name, total, live))
}

// muxGoVast: posts stuck on thousands of subscriptions, ended one by one or
// all at once. To be run in a bubble.
func muxGoVast(c *vk.C, n int) {
	r := c.Rng("muxgovast", n)
	mux := new(event.TypeMux)
	total := []int{100, 600, 2000}[n%3] + r.Intn(100)
	subs := make([]*event.TypeMuxSubscription, total)
	for i := range subs {
		subs[i] = mux.Subscribe(evA{})
	}
	vk.Begin("mux: posts stuck on %d subscriptions", total)
	defer vk.End()
	var posts sync.WaitGroup
	const K = 3
	for k := 1; k <= K; k++ {
		posts.Add(1)
		go func() { defer posts.Done(); mux.Post(evA{k}) }()
	}
	synctest.Wait()
	closed := func(i int, what string) {
		select {
		case ev, ok := <-subs[i].Chan():
			if ok {
				c.Violate("vast late", "of %d subscriptions, number %d gave %v after %s", total, i, ev.Data, what)
			}
		default:
			c.Violate("vast open", "of %d subscriptions, number %d is open after %s", total, i, what)
		}
		if !subs[i].Closed() {
			c.Violate("vast open", "of %d subscriptions, number %d is not Closed() after %s", total, i, what)
		}
	}
	// Subscribing does not wait for posts.
	extra := mux.Subscribe(evA{}, evB{})
	for _, i := range r.Perm(total)[:r.Intn(60)] {
		subs[i].Unsubscribe()
		closed(i, "Unsubscribe")
	}
	extra.Unsubscribe()
	if n%2 == 0 {
		for i := range subs { // some already are
			subs[i].Unsubscribe()
			closed(i, "Unsubscribe")
		}
		posts.Wait()
	}
	mux.Stop()
	// The last ones first: nothing may be left to be done in the background.
	for i := range subs {
		closed(total-1-i, "Stop")
	}
	posts.Wait()
	c.Count("subscriptions of vast muxes", total)
	// The same without posts in the way, for several types at once.
	for round := 0; round < 6; round++ {
		mux = new(event.TypeMux)
		for i := range subs {
			switch i % 3 {
			case 0:
				subs[i] = mux.Subscribe(evA{})
			case 1:
				subs[i] = mux.Subscribe(evB{}, evA{})
			default:
				subs[i] = mux.Subscribe(evB{})
			}
		}
		mux.Stop()
		if round%2 == 0 {
			for _, i := range r.Perm(total) {
				closed(i, "Stop")
			}
		} else {
			for i := range subs {
				closed(total-1-i, "Stop")
			}
		}
	}
	c.Eval(fmt.Sprint("govast", total, n%2))
}
