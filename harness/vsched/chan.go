package vsched

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// chanState is what a channel of the code holds under the scheduler; the
// channel itself is only the key.
type chanState struct {
	obj    *Obj
	keep   interface{}
	cap    int
	buf    []interface{}
	clocks []vclock // of the senders of buf
	freed  []vclock // of the receivers that made room, the next one first
	sent   int
	closed bool
}

type chCase struct {
	st   *chanState // nil for a nil channel
	send bool
	val  interface{}
	ok   bool
}

func state[T any](ch <-chan T) *chanState {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		return nil
	}
	r := current
	s := r.chans[p]
	if s == nil {
		s = &chanState{obj: r.newObj(), keep: ch, cap: cap(ch)}
		r.chans[p] = s
	}
	return s
}

func bidi[T any](ch chan<- T) <-chan T { return *(*<-chan T)(unsafe.Pointer(&ch)) }

// partner is the thread that has waited longest for the other side.
func (r *Run) partner(t *Thread, st *chanState, send bool) (p *Thread, idx int) {
	for _, x := range r.threads {
		if x == t || x.done || x.cases == nil || x.matched >= 0 {
			continue
		}
		for i, c := range x.cases {
			if c.st == st && c.send == send {
				if p == nil || x.since < p.since {
					p, idx = x, i
				}
				break
			}
		}
	}
	return
}

func (r *Run) caseReady(t *Thread, c *chCase) bool {
	st := c.st
	if st == nil {
		return false
	}
	if st.closed {
		return true
	}
	if c.send {
		if len(st.buf) < st.cap {
			return true
		}
		if st.cap > 0 {
			return false
		}
		p, _ := r.partner(t, st, false)
		return p != nil
	}
	if len(st.buf) > 0 {
		return true
	}
	p, _ := r.partner(t, st, true)
	return p != nil && st.cap == 0
}

func (r *Run) chanReady(t *Thread) bool {
	if t.matched >= 0 {
		return true
	}
	for _, c := range t.cases {
		if r.caseReady(t, c) {
			return true
		}
	}
	return t.what == "select with default"
}

// chanOp performs one of the cases, -1 for the default case.
func (r *Run) chanOp(what, site string, cases []*chCase, def bool) int {
	t := r.cur
	if r.dead {
		for i, c := range cases {
			if c.st != nil && !c.send && (len(c.st.buf) > 0 || c.st.closed) {
				return i
			}
		}
		if def {
			return -1
		}
		r.exit()
	}
	r.poll(cases)
	t.what, t.site, t.enabled, t.deadline, t.timedOut, t.cases, t.matched = what, site, nil, 0, false, cases, -1
	if cases == nil {
		t.cases = []*chCase{}
	}
	r.seq++
	t.since = r.seq
	r.schedule(t)
	defer func() { t.cases, t.matched = nil, -1 }()
	if i := t.matched; i >= 0 {
		return i
	}
	var ready []int
	for i, c := range cases {
		if r.caseReady(t, c) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		r.touch(t, "default", nil, true)
		for _, c := range cases { // it saw that nothing was ready
			if c.st != nil {
				r.touch(t, "default", c.st.obj, true)
			}
		}
		return -1
	}
	i := ready[0]
	if len(ready) > 1 {
		// the default is the case that was taken least often here, so that no
		// case starves
		if t.sites == nil {
			t.sites = map[string][]int{}
		}
		n := t.sites[site]
		for len(n) < len(cases) {
			n = append(n, 0)
		}
		sort.SliceStable(ready, func(a, b int) bool { return n[ready[a]] < n[ready[b]] })
		t.cases = nil // it is past waiting
		i = ready[Choose("select", len(ready))]
		n[i]++
		t.sites[site] = n
	}
	c := cases[i]
	st := c.st
	r.touch(t, fmt.Sprintf("%s %d", what, i), st.obj, false)
	if c.send {
		if st.closed {
			panic("send on closed channel")
		}
		if st.cap == 0 {
			p, j := r.partner(t, st, false)
			p.cases[j].val, p.cases[j].ok, p.matched = c.val, true, j
			r.meet(t, p, st)
		} else {
			st.buf = append(st.buf, c.val)
			if st.sent++; st.sent > st.cap { // the k-th receive is before the end of send k + cap
				t.vc.join(st.freed[0])
				st.freed = st.freed[1:]
			}
			st.clocks = append(st.clocks, append(vclock(nil), t.vc...))
			t.tick()
		}
	} else if len(st.buf) > 0 {
		c.val, c.ok = st.buf[0], true
		st.buf = st.buf[1:]
		t.vc.join(st.clocks[0])
		st.clocks = st.clocks[1:]
		st.freed = append(st.freed, append(vclock(nil), t.vc...))
		t.tick()
	} else if st.closed {
		c.val, c.ok = nil, false
		r.Acquire(st.obj)
	} else {
		p, j := r.partner(t, st, true)
		c.val, c.ok = p.cases[j].val, true
		p.matched = j
		r.meet(t, p, st)
	}
	return i
}

// meet synchronises the two threads of a rendezvous.
func (r *Run) meet(t, p *Thread, st *chanState) {
	t.vc.join(p.vc)
	p.vc.join(t.vc)
	t.tick()
	p.tick()
	r.threadHash(p, mix(mix(p.h, st.obj.h), t.h))
	r.threadHash(t, mix(t.h, p.h))
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if current == nil {
			ch <- v
			return
		}
		if s := state(bidi(ch)); s == nil {
			Do("send on nil channel", nil, true, func() bool { return false }, 0)
		} else {
			current.chanOp("send", "", []*chCase{{st: s, send: true, val: v}}, false)
		}
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if current == nil {
		v, ok = <-ch
		return
	}
	s := state(ch)
	if s == nil {
		Do("receive from nil channel", nil, true, func() bool { return false }, 0)
		return
	}
	c := &chCase{st: s}
	current.chanOp("receive", "", []*chCase{c}, false)
	v, _ = c.val.(T)
	return v, c.ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if current == nil {
		close(ch)
		return
	}
	r := current
	s := state(bidi(ch))
	if s == nil {
		panic("close of nil channel")
	}
	Do("close", s.obj, false, nil, 0)
	if r.dead {
		return
	}
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	r.Release(s.obj)
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if current == nil {
		return len(ch)
	}
	s := state(ch)
	if s == nil {
		return 0
	}
	Do("len", s.obj, true, nil, 0)
	return len(s.buf)
}

// Case is a case of a select statement.
type Case interface{ ch() *chCase }

// RecvCase receives.
type RecvCase[T any] struct{ c *chCase }

func (r RecvCase[T]) ch() *chCase { return r.c }

// Val is the value received.
func (r RecvCase[T]) Val() T { v, _ := r.c.val.(T); return v }

// Val2 is the value and whether the channel was open.
func (r RecvCase[T]) Val2() (T, bool) { v, _ := r.c.val.(T); return v, r.c.ok }

// CaseRecv is case <-ch.
func CaseRecv[T any](ch <-chan T) RecvCase[T] {
	if current == nil {
		panic("select outside of a run")
	}
	return RecvCase[T]{&chCase{st: state(ch)}}
}

type sendCase struct{ c *chCase }

func (s sendCase) ch() *chCase { return s.c }

// CaseSend is case ch <- v.
func CaseSend[T any](ch chan<- T) func(v T) Case {
	return func(v T) Case { return sendCase{&chCase{st: state(bidi(ch)), send: true, val: v}} }
}

// Select returns the index of the case that was performed, or -1.
func Select(site string, def bool, cases ...Case) int {
	var l []*chCase
	for _, c := range cases {
		l = append(l, c.ch())
	}
	what := "select"
	if def {
		what = "select with default"
	}
	return current.chanOp(what, site, l, def)
}

// Forever is select{}.
func Forever() { Do("select{}", nil, true, func() bool { return false }, 0) }

// put adds a value that no thread sent.
func (s *chanState) put(v interface{}) {
	s.buf = append(s.buf, v)
	s.clocks = append(s.clocks, nil)
	if s.sent++; s.sent > s.cap && len(s.freed) > 0 {
		s.freed = s.freed[1:]
	}
}

// Fill puts a value into a buffered channel from a timer.
func Fill[T any](ch chan T, v T) {
	s := state((<-chan T)(ch))
	if len(s.buf) < s.cap {
		s.put(v)
		current.objHash(s.obj, mix(s.obj.h, uint64(current.Now)))
	}
}

// Drain empties a buffered channel.
func Drain[T any](ch chan T) {
	if current != nil {
		s := state((<-chan T)(ch))
		s.sent -= len(s.buf)
		s.buf, s.clocks = nil, nil
	}
}

// GoTimer starts a thread from a timer.
func GoTimer(f func()) {
	r := current
	p := r.cur
	r.spawn(fmt.Sprintf("g%d:timer", len(r.threads)), f, false)
	r.cur = p
}

// pollReal takes over what code outside of the scheduler did to channels that
// threads wait for (package context closes its channels itself).
func (r *Run) pollReal() (found bool) {
	for _, t := range r.threads {
		if !t.done && r.poll(t.cases) {
			found = true
		}
	}
	return
}

func (r *Run) poll(cases []*chCase) (found bool) {
	for _, c := range cases {
		if c.st != nil && !c.send && !c.st.closed {
			v := reflect.ValueOf(c.st.keep)
			if x, ok := v.TryRecv(); ok {
				c.st.put(x.Interface())
				found = true
			} else if x.IsValid() {
				c.st.closed = true
				found = true
			}
		}
	}
	return
}

// Go is the go statement.
func Go(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else if x := reflect.ValueOf(a); x.Type().AssignableTo(pt) {
			in[i] = x
		} else {
			in[i] = x.Convert(pt)
		}
	}
	if current == nil {
		go v.Call(in)
		return
	}
	if current.dead {
		return
	}
	current.spawn(fmt.Sprintf("g%d:%s", len(current.threads), goName(v)), func() { v.Call(in) }, false)
}

// Iter walks a map in an order that is a decision of the scheduler.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	site string
}

// MapIter begins a walk; the two other results are there for their types.
func MapIter[M ~map[K]V, K comparable, V any](m M, site string) (it *Iter[K, V], k K, v V) {
	it = &Iter[K, V]{m: m, site: site}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return fmt.Sprint(it.keys[i]) < fmt.Sprint(it.keys[j]) })
	MR(m, site)
	return
}

// Next moves on.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		MR(it.m, it.site)
		i := Choose("map order", len(it.keys))
		key := it.keys[i]
		it.keys = append(it.keys[:i:i], it.keys[i+1:]...)
		x, ok := it.m[key]
		if !ok {
			continue // deleted meanwhile
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = x
		}
		return true
	}
	MR(it.m, it.site)
	return false
}
