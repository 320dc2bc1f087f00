package event

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"

	"flychain/event"
	"verifharness/vk"
)

// C03: type discipline.

type namedInt int
type payload struct {
	A int
	B string
}

// elemKind describes one element type usable on an untyped feed.
type elemKind struct {
	name string
	elem reflect.Type
	mk   func(capacity int, dir int) (sub interface{}, recv func() (interface{}, bool))
	val  func(i int) interface{}
}

func kindOf[T any](name string, val func(i int) T) elemKind {
	return elemKind{
		name: name,
		elem: reflect.TypeFor[T](),
		mk: func(capacity, dir int) (interface{}, func() (interface{}, bool)) {
			ch := make(chan T, capacity)
			var sub interface{} = ch
			switch dir {
			case 1:
				sub = (chan<- T)(ch)
			case 2:
				sub = (<-chan T)(ch)
			}
			return sub, func() (interface{}, bool) {
				select {
				case v := <-ch:
					return v, true
				default:
					return nil, false
				}
			}
		},
		val: func(i int) interface{} { return val(i) },
	}
}

var payloads = [4]payload{{1, "a"}, {2, "b"}, {3, "c"}, {4, "d"}}

var kinds = []elemKind{
	kindOf("int", func(i int) int { return i }),
	kindOf("int64", func(i int) int64 { return int64(i) }),
	kindOf("uint", func(i int) uint { return uint(i) }),
	kindOf("namedInt", func(i int) namedInt { return namedInt(i) }),
	kindOf("string", func(i int) string { return fmt.Sprint(i) }),
	kindOf("payload", func(i int) payload { return payloads[i%4] }),
	kindOf("*payload", func(i int) *payload {
		if i%5 == 0 {
			return nil
		}
		return &payloads[i%4]
	}),
	kindOf("[2]byte", func(i int) [2]byte { return [2]byte{byte(i), 7} }),
	kindOf("chan int", func(i int) chan int { return nil }),
	kindOf("struct{}", func(i int) struct{} { return struct{}{} }),
	kindOf("float64", func(i int) float64 { return float64(i) / 3 }),
	// Interface element types: a value never has such a type itself, so the
	// untyped feed takes subscriptions of them but no sends.
	kindOf("error", func(i int) error { return &wrappeds[i%3] }),
	kindOf("any", func(i int) any {
		if i%4 == 0 {
			return nil
		}
		return i
	}),
	kindOf("[]byte-ish", func(i int) [1]byte { return [1]byte{byte(i)} }),
	kindOf("error ptr", func(i int) *wrapped { return &wrappeds[i%3] }),
	// Types assignable to one another without being identical.
	kindOf("assign chan", func(i int) chan bool { return boolChans[i%3] }),
	kindOf("assign named chan", func(i int) namedChan { return boolChans[i%3] }),
	kindOf("assign <-chan", func(i int) <-chan bool { return boolChans[i%3] }),
	kindOf("assign named ptr", func(i int) namedPtr { return &payloads[i%4] }),
	kindOf("assign []", func(i int) []int { return []int{i, i + 1} }),
	kindOf("assign named []", func(i int) namedInts { return namedInts{i, i + 1} }),
	kindOf("assign struct", func(i int) struct{ A int } { return struct{ A int }{i} }),
	kindOf("assign named struct", func(i int) namedStruct { return namedStruct{i} }),
	kindOf("assign tagged struct", func(i int) taggedStruct { return taggedStruct{i} }),
	kindOf("assign map", func(i int) map[string]int { return map[string]int{"k": i} }),
	kindOf("assign named map", func(i int) namedMap { return namedMap{"k": i} }),
}

type namedChan chan bool
type namedPtr *payload
type namedInts []int
type namedStruct struct{ A int }
type taggedStruct struct {
	A int `tag:"a"`
}
type namedMap map[string]int

var boolChans = [3]chan bool{make(chan bool), make(chan bool, 1), nil}

// families of kinds whose values can be assigned to one another
var families = [][]string{
	{"assign chan", "assign named chan", "assign <-chan"},
	{"*payload", "assign named ptr"},
	{"assign []", "assign named []"},
	{"assign struct", "assign named struct", "assign tagged struct"},
	{"assign map", "assign named map"},
	{"int", "namedInt", "any"},
}

type wrapped struct{ s string }

func (w *wrapped) Error() string { return w.s }

var wrappeds = [3]wrapped{{"x"}, {"y"}, {"z"}}

func typeHistory(c *vk.C, n int) {
	r := c.Rng("types", n)
	var f event.Feed
	var trace []string
	var etype reflect.Type
	type ms struct {
		sub    event.Subscription
		recv   func() (interface{}, bool)
		active bool
	}
	var subs []*ms
	bad := func(sig string, a ...interface{}) {
		c.Violate(sig, "%s; history %d: %s", fmt.Sprintf(sig, a...), n, strings.Join(trace, "; "))
	}
	// Bias to a handful of kinds so that matches happen.
	pool := []int{r.Intn(len(kinds)), r.Intn(len(kinds)), r.Intn(len(kinds))}
	if r.Intn(4) == 0 { // a type and interfaces it satisfies
		for j := range pool {
			if x := kinds[r.Intn(len(kinds))]; x.name == "error" || x.name == "any" || x.name == "error ptr" || x.name == "int" {
				for m := range kinds {
					if kinds[m].name == x.name {
						pool[j] = m
					}
				}
			}
		}
	}
	if r.Intn(4) == 0 {
		fam := families[r.Intn(len(families))]
		for j := range pool {
			name := fam[r.Intn(len(fam))]
			for m := range kinds {
				if kinds[m].name == name {
					pool[j] = m
				}
			}
		}
	}
	misuse := 0
	for i := 0; i < 6+r.Intn(24); i++ {
		k := pool[r.Intn(3)]
		kd := kinds[k]
		vk.Begin("feed type history %d step %d %s", n, i, strings.Join(trace, "; "))
		switch r.Intn(8) {
		case 0: // not a channel, or not sendable
			x := []interface{}{7, "s", payload{}, func() {}, []int{1}, make(<-chan int), (<-chan string)(nil)}[r.Intn(7)]
			if r.Intn(3) == 0 {
				x, _ = kd.mk(1, 2)
			}
			trace = append(trace, fmt.Sprintf("Subscribe(%T)", x))
			if v, _ := vk.Panics(func() { f.Subscribe(x) }); v == nil {
				bad("Subscribe of something that cannot be sent on did not panic")
			}
			misuse++
		case 1, 2, 3:
			dir := r.Intn(2)
			ch, recv := kd.mk(32, dir)
			trace = append(trace, fmt.Sprintf("Subscribe(%T)", ch))
			var s event.Subscription
			v, _ := vk.Panics(func() { s = f.Subscribe(ch) })
			if etype == nil || etype == kd.elem {
				etype = kd.elem
				if v != nil {
					bad("Subscribe with the feed's type panicked: %v", v)
					return
				}
				subs = append(subs, &ms{s, recv, true})
			} else {
				misuse++
				if v == nil {
					bad("Subscribe with another element type did not panic")
				}
				if _, ok := v.(error); !ok {
					bad("misuse panic value is not an error: %T", v)
				}
			}
		case 4:
			if len(subs) > 0 {
				m := subs[r.Intn(len(subs))]
				trace = append(trace, "Unsubscribe")
				c.NoPanic("Unsubscribe "+strings.Join(trace, "; "), m.sub.Unsubscribe)
				m.active = false
			}
		default:
			val := kd.val(i)
			trace = append(trace, fmt.Sprintf("Send(%T)", val))
			ns := 0
			v, _ := vk.Panics(func() { ns = f.Send(val) })
			if val == nil || etype != nil && etype != reflect.TypeOf(val) {
				misuse++
				if v == nil {
					bad("Send of another type did not panic")
				}
				if _, ok := v.(error); !ok {
					bad("misuse panic value is not an error: %T", v)
				}
				for _, m := range subs {
					if x, ok := m.recv(); ok {
						bad("a rejected Send delivered %v", x)
					}
				}
				break
			}
			etype = reflect.TypeOf(val)
			if v != nil {
				bad("Send of the feed's type panicked: %v", v)
				return
			}
			want := 0
			for _, m := range subs {
				x, ok := m.recv()
				if m.active {
					want++
					if !ok || !reflect.DeepEqual(x, val) {
						bad("after misuse, a subscriber did not get the value sent")
					}
				} else if ok {
					bad("value delivered to an unsubscribed channel")
				}
				if _, again := m.recv(); again {
					bad("value delivered twice")
				}
			}
			if ns != want {
				bad("Send reported %d, want %d", ns, want)
			}
		}
		vk.End()
	}
	key := ""
	if misuse > 0 {
		key = strings.Join(trace, ";")
	}
	c.Eval(key)
	c.Count("misuses", misuse)
	c.Sample("%s", strings.Join(trace, "; "))
}

// FeedOf with interface element types: every value of the type, nil included.
func ifaceHistory[T comparable](c *vk.C, name string, n int, vals []T) {
	r := c.Rng("iface"+name, n)
	var f event.FeedOf[T]
	var subs []event.Subscription
	var chs []chan T
	var active []bool
	var trace []string
	for i := 0; i < 4+r.Intn(16); i++ {
		vk.Begin("FeedOf[%s] %s", name, strings.Join(trace, "; "))
		switch r.Intn(4) {
		case 0:
			ch := make(chan T, 32)
			trace = append(trace, "sub")
			chs, subs, active = append(chs, ch), append(subs, f.Subscribe(ch)), append(active, true)
		case 1:
			if len(subs) > 0 {
				j := r.Intn(len(subs))
				trace = append(trace, fmt.Sprintf("unsub%d", j))
				c.NoPanic("Unsubscribe", subs[j].Unsubscribe)
				active[j] = false
			}
		default:
			v := vals[r.Intn(len(vals))]
			trace = append(trace, fmt.Sprintf("send(%v)", v))
			ns := -1
			if !c.NoPanic(fmt.Sprintf("FeedOf[%s] %s", name, strings.Join(trace, "; ")), func() { ns = f.Send(v) }) {
				vk.End()
				return // the feed may be wedged now
			}
			want := 0
			for j, ch := range chs {
				if active[j] {
					want++
					if len(ch) != 1 {
						c.Violate("iface delivery", "FeedOf[%s]: channel holds %d values; %s", name, len(ch), strings.Join(trace, "; "))
						continue
					}
					if got := <-ch; got != v {
						c.Violate("iface value", "FeedOf[%s]: got %v want %v; %s", name, got, v, strings.Join(trace, "; "))
					}
				} else if len(ch) != 0 {
					c.Violate("iface late", "FeedOf[%s]: delivery after unsubscribe; %s", name, strings.Join(trace, "; "))
				}
			}
			if ns != want {
				c.Violate("iface count", "FeedOf[%s]: reported %d want %d; %s", name, ns, want, strings.Join(trace, "; "))
			}
		}
		vk.End()
	}
	c.Eval(name + strings.Join(trace, ";"))
	c.Sample("FeedOf[%s]: %s", name, strings.Join(trace, "; "))
}

// coldTypes: many threads make the very first use of one feed with different
// types. One type wins; every use of it succeeds, every other use panics.
func coldTypes(c *vk.C, n int) {
	r := c.Rng("cold", n)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{2, 4, 8}[r.Intn(3)]))
	var f event.Feed
	type op struct{ kind, send int }
	ops := make([]op, 2+r.Intn(5))
	res := make([]bool, len(ops))
	subs := make([]event.Subscription, len(ops))
	var ready, wg sync.WaitGroup
	ready.Add(len(ops))
	one := func(o op, i int) (ok bool) {
		v, _ := vk.Panics(func() {
			switch {
			case o.send == 1 && o.kind == 0:
				f.Send(7)
			case o.send == 1:
				f.Send("seven")
			case o.kind == 0:
				subs[i] = f.Subscribe(make(chan int, 100))
			default:
				subs[i] = f.Subscribe(make(chan string, 100))
			}
		})
		return v == nil
	}
	for i := range ops {
		ops[i] = op{r.Intn(2), r.Intn(2)}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			ready.Wait()
			res[i] = one(ops[i], i)
		}()
	}
	wg.Wait()
	win := -1
	for i, ok := range res {
		if ok && win >= 0 && ops[i].kind != win {
			c.Violate("two types", "first uses %v of one feed at once: %v succeed", ops, res)
			return
		}
		if ok {
			win = ops[i].kind
		}
	}
	for i, ok := range res {
		if win < 0 || ok != (ops[i].kind == win) {
			c.Violate("cold refusal", "first uses %v of one feed at once: %v succeed", ops, res)
			return
		}
	}
	// The feed goes on with the winner.
	nsub := 0
	for i, o := range ops {
		if res[i] && o.send == 0 {
			nsub++
		}
	}
	got := -1
	v, _ := vk.Panics(func() {
		if win == 0 {
			got = f.Send(8)
		} else {
			got = f.Send("eight")
		}
	})
	if v != nil || got != nsub {
		c.Violate("cold send", "after first uses %v (%v succeed) a send reaches %d (panic %v)", ops, res, got, v)
	}
	if v, _ := vk.Panics(func() {
		if win == 1 {
			f.Send(8)
		} else {
			f.Send("eight")
		}
	}); v == nil {
		c.Violate("cold wrong", "after first uses %v (%v succeed) a send of the other type is accepted", ops, res)
	}
	c.Eval(fmt.Sprint("cold", ops, res))
}

func TestC03(t *testing.T) {
	vk.Run(t, "C03", "random histories mixing correct use with wrong-typed sends and subscriptions on the untyped feed, and nil/interface/pointer values on typed feeds, checked step by step against an exact model; distinct = different operation trace containing at least one misuse (untyped) or any trace (typed)", func(c *vk.C) {
		for i := 0; i < c.N(4000, 80000); i++ {
			typeHistory(c, i)
		}
		for i := 0; i < c.N(3000, 60000); i++ {
			coldTypes(c, i)
		}
		e1, e2 := errors.New("a"), io.EOF
		p := &payloads[0]
		for i := 0; i < c.N(600, 10000); i++ {
			ifaceHistory[error](c, "error", i, []error{nil, e1, e2, (*wrapped)(nil), &wrappeds[1]})
			ifaceHistory[any](c, "any", i, []any{nil, 1, "x", payload{1, "q"}, p, nil, 2.5, (*payload)(nil)})
			ifaceHistory[fmt.Stringer](c, "Stringer", i, []fmt.Stringer{nil, stringer(3), stringer(0)})
			ifaceHistory[*payload](c, "*payload", i, []*payload{nil, p, &payloads[1]})
			ifaceHistory[payload](c, "payload", i, []payload{{}, {1, "x"}})
			ifaceHistory[chan int](c, "chan int", i, []chan int{nil, make(chan int)})
			ifaceHistory[string](c, "string", i, []string{"", "v"})
		}
	})
}

type stringer int

func (s stringer) String() string { return fmt.Sprint(int(s)) }

var _ = rand.Int
