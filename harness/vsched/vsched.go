// Package vsched runs instrumented code under a cooperative scheduler: one
// thread at a time, with a scheduling decision before every operation on a
// shared object. The decisions are explored by Explore.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"unsafe"
)

// Progress counts the steps of all runs.
var Progress atomic.Int64

// Second in virtual nanoseconds.
const Second = int64(1e9)

// Millisecond in virtual nanoseconds.
const Millisecond = int64(1e6)

// Epoch is the virtual time at which every run starts (2020-09-13 12:26:40 UTC).
const Epoch = int64(1600000000) * Second

// Obj is a shared object: it carries the vector clock of what was released
// through it and the hash of its history.
type Obj struct {
	id, h uint64
	vc    vclock
	rvc   vclock // released by readers, for writers only
	run   *Run
}

type vclock []uint32

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Thread is one controlled goroutine.
type Thread struct {
	ID   int
	Name string

	idh     uint64 // identity, the same in every equivalent schedule
	h       uint64 // history
	vc      vclock
	wake    chan struct{}
	ended   chan struct{}
	done    bool
	path    string // of creation, orders the threads
	sites   map[string][]int
	harness bool
	made    uint64 // objects created

	// pending operation
	what     string
	site     string
	enabled  func() bool // nil: always
	deadline int64       // 0: none
	timedOut bool
	idle     bool // runs only when no other thread can
	cases    []*chCase
	matched  int // index of the case a partner completed, or -1
	since    int
}

// Run is one execution.
type Run struct {
	cfg      *Config
	Now      int64
	threads  []*Thread
	cur      *Thread
	timers   []*Timer
	chans    map[unsafe.Pointer]*chanState
	maps     map[unsafe.Pointer]*mapState
	fields   map[string]*Obj
	access   map[string]*fieldUse
	order    []*Thread
	atoms    map[unsafe.Pointer]*Obj
	cells    map[unsafe.Pointer]*cell
	streak   int
	seq      int
	steps    int
	dead     bool
	frozen   bool
	finished chan struct{}
	fp       uint64 // sum of the hashes of all threads and objects

	prefix  []int
	trace   []point
	devs    int
	pruned  bool
	diverge string
	cache   map[uint64]uint8
	shared  map[string]bool

	Failure *Failure
	log     []string
	Log     bool
	Env     interface{} // of the simulated network
	Notes   []string
	outcome string
}

type fieldUse struct {
	threads map[int]bool
	written bool
}

// Failure is a broken property.
type Failure struct {
	Key     string   `json:"key"`
	What    string   `json:"what"`
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace,omitempty"`
}

type point struct {
	n, chosen, devs int
}

// current is the active run; nil outside of runs.
var current *Run

// Active returns the run, or nil.
func Active() *Run { return current }

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a *= 0xff51afd7ed558ccd
	a ^= a >> 32
	return a
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *Run) newObj() *Obj {
	o := &Obj{run: r}
	if r != nil && r.cur != nil {
		r.cur.made++
		o.id = mix(r.cur.idh, r.cur.made)
	}
	return o
}

// Get returns the object behind a pointer that lives in a synchronisation
// primitive, creating it once per run.
func Get(p **Obj) *Obj {
	if *p == nil || (*p).run != current {
		*p = current.newObj()
	}
	return *p
}

// Fresh tells whether the object belongs to the current run.
func Fresh(p *Obj) bool { return p != nil && p.run == current }

func (r *Run) threadHash(t *Thread, h uint64) {
	r.fp -= mix(t.idh, t.h)
	t.h = h
	r.fp += mix(t.idh, t.h)
}

func (r *Run) objHash(o *Obj, h uint64) {
	r.fp -= mix(o.id, o.h)
	o.h = h
	r.fp += mix(o.id, o.h)
}

// touch records the operation in the histories. Reads commute.
func (r *Run) touch(t *Thread, what string, o *Obj, read bool) {
	h := mix(t.h, hashString(what))
	if o != nil {
		h = mix(mix(h, o.id), o.h)
	}
	r.threadHash(t, h)
	if o != nil && !read {
		r.objHash(o, mix(o.h, t.h))
	}
}

func (t *Thread) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

// Acquire and Release are the synchronisation of an object.
func (r *Run) Acquire(o *Obj) { r.cur.vc.join(o.vc) }

// Release publishes the history of the running thread.
func (r *Run) Release(o *Obj) {
	o.vc.join(r.cur.vc)
	r.cur.tick()
}

// AcquireAll also acquires what readers released.
func (r *Run) AcquireAll(o *Obj) { r.cur.vc.join(o.vc); r.cur.vc.join(o.rvc) }

// ReleaseRead publishes the history of the running thread to AcquireAll.
func (r *Run) ReleaseRead(o *Obj) {
	o.rvc.join(r.cur.vc)
	r.cur.tick()
}

// kill ends the running goroutine of a run that is over.
func (r *Run) exit() { runtime.Goexit() }

// Do is a scheduling point: it returns when the scheduler picks this thread,
// which it only does when enabled (nil: always) holds or the deadline (0:
// none) has passed. The caller then performs the operation.
func Do(what string, o *Obj, read bool, enabled func() bool, deadline int64) (timedOut bool) {
	r := current
	t := r.cur
	if r.dead {
		if enabled != nil && !enabled() {
			r.exit()
		}
		return false
	}
	t.what, t.enabled, t.deadline, t.timedOut, t.cases = what, enabled, deadline, false, nil
	r.seq++
	t.since = r.seq
	r.schedule(t)
	t.enabled = nil
	if t.timedOut {
		r.touch(t, what+" timeout", o, true)
	} else {
		r.touch(t, what, o, read)
	}
	return t.timedOut
}

func (t *Thread) ready(r *Run) bool {
	if t.done || t.idle {
		return false
	}
	if t.cases != nil {
		return r.chanReady(t)
	}
	return t.enabled == nil || t.enabled()
}

// schedule picks the next thread and switches to it. t is the thread that
// calls, with its pending operation set (or done).
func (r *Run) schedule(t *Thread) {
	if r.dead {
		r.exit()
	}
	r.steps++
	Progress.Add(1)
	if r.steps > r.cfg.MaxSteps {
		r.fail("no end", fmt.Sprintf("the run does not end within %d steps: %s", r.cfg.MaxSteps, r.describe()))
		r.stop(t)
		return
	}
	var opts []*Thread
	for {
		opts = opts[:0]
		n := len(r.order)
		// cyclic order beginning with the running thread, or after it
		at := 0
		for i, x := range r.order {
			if x == t {
				at = i
			}
		}
		for i := 0; i < n; i++ {
			x := r.order[(at+i)%n]
			if x.ready(r) || x.deadline != 0 && !x.done && !x.idle && x.deadline <= r.Now {
				opts = append(opts, x)
			}
		}
		if len(opts) > 1 && opts[0] == t && (r.cfg.Policy == 1 || r.streak > 200) {
			opts = append(opts[1:len(opts):len(opts)], t)
		}
		if len(opts) > 0 {
			break
		}
		if r.pollReal() {
			continue
		}
		// an idle thread whose time has come, or that waits for quiet
		for _, x := range r.order {
			if x.idle && !x.done && (x.deadline <= r.Now || r.quiet()) {
				opts = append(opts, x)
				break
			}
		}
		if len(opts) > 0 {
			break
		}
		if !r.advance() {
			r.fail("deadlock", "deadlock: "+r.describe())
			r.stop(t)
			return
		}
	}
	k := len(opts)
	early := r.cfg.TimeSteps && !opts[0].idle && r.nextTime(false) > 0
	if early {
		k++
	}
	c := 0
	if k > 1 {
		c = r.choose(k, t, opts)
		if r.dead {
			r.stop(t)
			return
		}
	}
	if c == len(opts) { // time passes first
		r.passTime(r.nextTime(false))
		if r.Log {
			r.logf("time passes")
		}
		r.schedule(t)
		return
	}
	next := opts[c]
	next.timedOut = !next.idle && !next.ready(r)
	if r.Log {
		r.logf("%s: %s", next.Name, next.what)
	}
	r.switchTo(t, next)
}

func (r *Run) switchTo(t, next *Thread) {
	r.cur = next
	if next == t {
		r.streak++
		return
	}
	r.streak = 0
	next.wake <- struct{}{}
	if t.done {
		return
	}
	<-t.wake
	if r.dead {
		r.exit()
	}
}

// stop ends the run from within a thread.
func (r *Run) stop(t *Thread) {
	if !r.dead {
		r.dead = true
		close(r.finished)
	}
	if !t.done {
		r.exit()
	}
}

// nextTime is the earliest deadline of a sleeper or timer; idle threads only if wanted.
func (r *Run) nextTime(idle bool) int64 {
	var min int64
	for _, x := range r.threads {
		if !x.done && x.deadline != 0 && (idle || !x.idle) && (min == 0 || x.deadline < min) {
			min = x.deadline
		}
	}
	for _, x := range r.timers {
		if min == 0 || x.when < min {
			min = x.when
		}
	}
	return min
}

// quiet tells that nothing can happen any more except by an idle thread.
func (r *Run) quiet() bool { return r.nextTime(false) == 0 }

func (r *Run) passTime(to int64) {
	if to > r.Now {
		r.fp -= mix(1, uint64(r.Now))
		r.Now = to
		r.fp += mix(1, uint64(r.Now))
	}
	for again := true; again; {
		again = false
		sort.SliceStable(r.timers, func(i, j int) bool { return r.timers[i].when < r.timers[j].when })
		if len(r.timers) > 0 && r.timers[0].when <= r.Now {
			x := r.timers[0]
			r.timers = r.timers[1:]
			x.live = false
			x.fire()
			again = true
		}
	}
}

// advance lets time pass when nothing else can happen.
func (r *Run) advance() bool {
	to := r.nextTime(true)
	if to == 0 {
		return false
	}
	r.passTime(to)
	return true
}

// choose takes a decision with n options, 0 being the default.
func (r *Run) choose(n int, t *Thread, opts []*Thread) int {
	if r.frozen {
		return 0
	}
	i := len(r.trace)
	c := 0
	if i < len(r.prefix) {
		c = r.prefix[i]
		if c >= n {
			r.diverge = fmt.Sprintf("decision %d has %d options, expected more than %d", i, n, c)
			r.dead = true
			close(r.finished)
			return 0
		}
	} else if r.cache != nil && r.cfg.Bound > 0 {
		left := uint8(r.cfg.Bound - r.devs + 1)
		key := mix(r.fp, uint64(n)<<32^uint64(len(opts)))
		if t != nil {
			key = mix(key, t.idh)
		}
		key += r.waiters()
		if r.cache[key] >= left {
			r.pruned = true
			r.dead = true
			close(r.finished)
			return 0
		}
		r.cache[key] = left
	}
	r.trace = append(r.trace, point{n, c, r.devs})
	if c > 0 {
		r.devs++
	}
	return c
}

// waiters is the order in which threads wait for the same channels.
func (r *Run) waiters() (h uint64) {
	var l []*Thread
	for _, x := range r.threads {
		if !x.done && len(x.cases) > 0 && x.matched < 0 {
			l = append(l, x)
		}
	}
	if len(l) < 2 {
		return
	}
	sort.Slice(l, func(i, j int) bool { return l[i].since < l[j].since })
	type dir struct {
		st   *chanState
		send bool
	}
	n := map[dir]uint64{}
	for _, x := range l {
		for _, c := range x.cases {
			if c.st != nil {
				d := dir{c.st, c.send}
				if n[d] > 0 {
					h += mix(mix(c.st.obj.id, x.idh), n[d])
				}
				n[d]++
			}
		}
	}
	return
}

// Choose is a decision about data or faults: every option but the first one
// counts as a deviation.
func Choose(what string, n int) int {
	r := current
	if r == nil || r.dead || n < 2 {
		return 0
	}
	c := r.choose(n, r.cur, nil)
	if r.dead {
		r.exit()
	}
	r.threadHash(r.cur, mix(mix(r.cur.h, hashString(what)), uint64(c)))
	if r.Log {
		r.logf("%s: %s = %d of %d", r.cur.Name, what, c, n)
	}
	return c
}

// Go starts a thread that calls f with the arguments.
func (r *Run) spawn(name string, f func(), harness bool) *Thread {
	t := &Thread{ID: len(r.threads), Name: name, wake: make(chan struct{}), ended: make(chan struct{}), harness: harness, matched: -1}
	if p := r.cur; p != nil {
		p.made++
		t.path = fmt.Sprintf("%s.%05d", p.path, p.made)
		t.idh = mix(mix(p.idh, p.made), 77)
		r.threadHash(p, mix(p.h, t.idh))
		t.vc.join(p.vc)
		p.tick()
		t.h = p.h
	}
	t.tick()
	t.what = "start"
	r.fp += mix(t.idh, t.h)
	r.threads = append(r.threads, t)
	i := sort.Search(len(r.order), func(i int) bool { return r.order[i].path > t.path })
	r.order = append(r.order, nil)
	copy(r.order[i+1:], r.order[i:])
	r.order[i] = t
	r.seq++
	t.since = r.seq
	go func() {
		defer close(t.ended)
		<-t.wake
		defer func() {
			p := recover()
			if r.dead {
				return
			}
			if p != nil {
				r.fail("panic", fmt.Sprintf("panic in %s: %v\n%s", t.Name, p, stack()))
				r.dead = true
				close(r.finished)
				return
			}
			t.done = true
			r.fp -= mix(t.idh, t.h)
			t.h = mix(t.h, 99)
			r.fp += mix(t.idh, t.h)
			if t.ID == 0 {
				r.dead = true
				close(r.finished)
				return
			}
			r.schedule(t)
		}()
		if r.dead {
			return
		}
		f()
	}()
	return t
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/p2p/") || strings.Contains(l, "gringo/") || strings.Contains(l, "/cmd/C") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Spawn starts a thread of the harness.
func Spawn(name string, f func()) *Thread { return current.spawn(name, f, true) }

// Done tells whether the thread has ended.
func (t *Thread) Done() bool { return t.done }

// Waiting is what the thread waits for.
func (t *Thread) Waiting() string {
	if t.done {
		return ""
	}
	return t.what
}

// Step is a plain scheduling point.
func Step(what string) {
	if current != nil {
		Do(what, nil, true, nil, 0)
	}
}

// StepOn is a scheduling point of an operation on an object of the harness.
func StepOn(what string, o *Obj, read bool) {
	if current != nil {
		Do(what, o, read, nil, 0)
	}
}

// NewObj makes an object of the harness.
func NewObj() *Obj { return current.newObj() }

// Freeze makes the following decisions the default ones: they are not explored.
func Freeze(on bool) { current.frozen = on }

// Settle lets everything else run until nothing can happen any more, or the
// virtual time d has passed.
func Settle(d int64) {
	r := current
	if r.dead {
		r.exit()
	}
	t := r.cur
	t.what, t.enabled, t.deadline, t.cases, t.idle = "settle", nil, r.Now+d, nil, true
	r.schedule(t)
	t.idle, t.deadline = false, 0
	r.touch(t, "settle", nil, true)
	for _, x := range r.threads { // the harness sees everything
		t.vc.join(x.vc)
		r.threadHash(t, mix(t.h, x.h))
	}
}

// SleepFor suspends the thread for a virtual duration.
func SleepFor(d int64) {
	r := current
	if r == nil {
		return
	}
	if d <= 0 {
		Do("sleep", nil, true, nil, 0)
		return
	}
	Do("sleep", nil, true, func() bool { return false }, r.Now+d)
}

// SetDeadline changes the deadline of a waiting thread.
func (t *Thread) SetDeadline(d int64) { t.deadline = d }

// Self is the running thread.
func Self() *Thread { return current.cur }

// Now is the virtual time.
func Now() int64 {
	if current == nil {
		return Epoch
	}
	return current.Now
}

// Dead tells that the run is over and its threads are being ended.
func Dead() bool { return current != nil && current.dead }

// Live lists the threads that have not ended, except those of the harness.
func Live() (l []string) {
	for _, t := range current.threads {
		if !t.done && !t.harness && t != current.cur {
			l = append(l, t.Name+" in "+t.what)
		}
	}
	return
}

func (r *Run) describe() string {
	var l []string
	for _, t := range r.threads {
		if !t.done {
			l = append(l, t.Name+" in "+t.what)
		}
	}
	return strings.Join(l, "; ")
}

func (r *Run) logf(f string, a ...interface{}) {
	if r.Log && len(r.log) < 4000 {
		r.log = append(r.log, fmt.Sprintf("%6.1fs ", float64(r.Now-Epoch)/1e9)+fmt.Sprintf(f, a...))
	}
}

// Logf adds to the log of a replay.
func Logf(f string, a ...interface{}) {
	if current != nil {
		current.logf(f, a...)
	}
}

func (r *Run) fail(key, what string) {
	if Racing && !strings.HasPrefix(key, "race ") && key != "map race" {
		r.outcome = "ended: " + key                // another property's
		if p := os.Getenv("HV_IGNORED"); p != "" { // where to list them
			if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
				fmt.Fprintln(f, key, what)
				f.Close()
			}
		}
		return
	}
	if r.Failure == nil {
		r.Failure = &Failure{Key: key, What: what}
		r.logf("FAILURE %s: %s", key, what)
	}
}

// Fail reports a broken property and ends the run.
func Fail(key, f string, a ...interface{}) {
	r := current
	if r.dead {
		r.exit()
	}
	r.fail(key, fmt.Sprintf(f, a...))
	r.stop(r.cur)
}

// Outcome names the result of the run.
func Outcome(s string) { current.outcome = s }

// Timer fires once.
type Timer struct {
	when int64
	fire func()
	live bool
}

// StartTimer arms a timer; fire runs in the scheduler and must not block.
func StartTimer(d int64, fire func()) *Timer {
	r := current
	t := &Timer{when: r.Now + d, fire: fire, live: true}
	r.timers = append(r.timers, t)
	return t
}

// StopTimer disarms it and tells whether it was armed.
func StopTimer(t *Timer) bool {
	if current == nil || !t.live {
		return false
	}
	for i, x := range current.timers {
		if x == t {
			current.timers = append(current.timers[:i:i], current.timers[i+1:]...)
		}
	}
	t.live = false
	return true
}

// P is an access to a member that is not synchronised by itself.
func P(name string, write bool) {
	r := current
	if r == nil || r.dead {
		return
	}
	u := r.access[name]
	if u == nil {
		u = &fieldUse{threads: map[int]bool{}}
		r.access[name] = u
	}
	u.threads[r.cur.ID] = true
	u.written = u.written || write
	o := r.fields[name]
	if o == nil {
		o = &Obj{run: r, id: hashString(name)}
		r.fields[name] = o
	}
	if r.cfg.Points && r.shared[name] {
		Do("access to "+name, o, !write, nil, 0)
		return
	}
	r.touch(r.cur, name, o, !write)
}

// Atom is the object of a word in memory that atomic operations use.
func Atom(p unsafe.Pointer) *Obj {
	r := current
	o := r.atoms[p]
	if o == nil {
		o = r.newObj()
		r.atoms[p] = o
	}
	return o
}

type mapState struct {
	obj       *Obj
	writeT    int
	writeC    uint32
	writeSite string
	reads     map[int]uint32
	readSite  map[int]string
}

// MR and MW record an access to a map and return it. Two accesses, one of
// them a write, that are not ordered by synchronisation can end a Go process.
func MR[M any](m M, site string) M {
	mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, false)
	return m
}

// MW is a write.
func MW[M any](m M, site string) M {
	mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, true)
	return m
}

func mapAccess(p unsafe.Pointer, site string, write bool) {
	r := current
	if r == nil || r.dead || p == nil {
		return
	}
	s := r.maps[p]
	if s == nil {
		s = &mapState{obj: r.newObj(), writeT: -1, reads: map[int]uint32{}, readSite: map[int]string{}}
		r.maps[p] = s
	}
	t := r.cur
	r.touch(t, "map", s.obj, !write)
	if s.writeT >= 0 && s.writeT != t.ID && t.vc.at(s.writeT) < s.writeC {
		r.fail("map race", fmt.Sprintf("concurrent map access: %s in %s against the write %s in %s", site, t.Name, s.writeSite, r.threads[s.writeT].Name))
		r.stop(t)
		return
	}
	if write {
		for id, c := range s.reads {
			if id != t.ID && t.vc.at(id) < c {
				r.fail("map race", fmt.Sprintf("concurrent map access: write %s in %s against the read %s in %s", site, t.Name, s.readSite[id], r.threads[id].Name))
				r.stop(t)
				return
			}
		}
		s.writeT, s.writeC, s.writeSite = t.ID, t.vc.at(t.ID), site
		s.reads, s.readSite = map[int]uint32{}, map[int]string{}
	} else {
		s.reads[t.ID], s.readSite[t.ID] = t.vc.at(t.ID), site
	}
}

// Debugf prints when VSCHED_DEBUG is set.
func Debugf(f string, a ...interface{}) {
	if os.Getenv("VSCHED_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// Touch records that the running thread changed the object.
func Touch(o *Obj) {
	if r := current; r != nil && !r.dead {
		r.touch(r.cur, "touch", o, false)
	}
}
