// C01: a proof of work is accepted exactly when it is one simple cycle.
package main

import (
	"encoding/binary"
	"fmt"
	"sort"

	"verif/hv"
	"verif/ref"

	"github.com/dblokhin/gringo/cuckoo"
)

type verifier struct {
	name string
	ok   func(nonces []uint32) bool
}

var c *hv.Ctx

func check(kind, key string, ok func() bool, want bool, nontrivial bool, h uint64, replay func() interface{}) bool {
	var got bool
	if p := hv.Try(func() { got = ok() }); p != nil {
		c.Violate(kind+"/panic/"+key, fmt.Sprintf("%s: verification panics: %v", kind, p), replay())
		return false
	}
	c.Case(h, nontrivial)
	if got != want {
		c.Violate(kind+"/"+key, fmt.Sprintf("%s: Verify=%v, want %v", kind, got, want), replay())
		return false
	}
	if want {
		c.Sample(kind+"/accepted", replay)
	} else if nontrivial {
		c.Sample(kind+"/rejected", replay)
	}
	return true
}

// table-driven graphs: the edge of nonce i is (us[i], vs[i])

type table struct {
	us, vs map[uint64]uint64
	nonces []uint32
	// dense variant for nonces 0..n-1
	du, dv []uint64
}

var tables [64]*table // by worker
var byKey = map[uint64]int{}

func header(w int) []byte { return []byte{'h', byte(w)} }
func roo(w int) [4]uint64 { return [4]uint64{0x7654000000000000 + uint64(w), 1, 2, 3} }

func lookup(t *table, side int, nonce uint64) uint64 {
	if t.us == nil {
		if nonce >= uint64(len(t.du)) {
			return 1 << 20 // an edge apart
		}
		if side == 0 {
			return t.du[nonce]
		}
		return t.dv[nonce]
	}
	if side == 0 {
		return t.us[nonce]
	}
	return t.vs[nonce]
}

func hook(block bool, key [4]uint64, nonce uint64) (uint64, bool) {
	if w, ok := byKey[key[0]]; ok && tables[w] != nil {
		t := tables[w]
		if block {
			return lookup(t, 0, nonce) | lookup(t, 1, nonce)<<32, true
		}
		return lookup(t, int(nonce&1), nonce>>1), true
	}
	return 0, false
}

func seqOf(n int) []uint32 {
	if n < len(seqs) {
		return seqs[n]
	}
	return seq(n)
}

// seq is 0..n-1
func seq(n int) []uint32 {
	s := make([]uint32, n)
	for i := range s {
		s[i] = uint32(i)
	}
	return s
}

// partitions returns all set partitions of n elements as restricted growth strings.
func partitions(n int) (out [][]uint64) {
	p := make([]uint64, n)
	var rec func(i int, max uint64)
	rec = func(i int, max uint64) {
		if i == n {
			out = append(out, append([]uint64(nil), p...))
			return
		}
		for b := uint64(0); b <= max; b++ {
			p[i] = b
			m := max
			if b == max {
				m++
			}
			rec(i+1, m)
		}
	}
	rec(0, 0)
	return
}

// matchings returns all partitions of n elements into pairs.
func matchings(n int) (out [][]uint64) {
	p := make([]uint64, n)
	used := make([]bool, n)
	var rec func(b uint64)
	rec = func(b uint64) {
		i := 0
		for i < n && used[i] {
			i++
		}
		if i == n {
			out = append(out, append([]uint64(nil), p...))
			return
		}
		used[i] = true
		p[i] = b
		for j := i + 1; j < n; j++ {
			if !used[j] {
				used[j] = true
				p[j] = b
				rec(b + 1)
				used[j] = false
			}
		}
		used[i] = false
	}
	rec(0)
	return
}

// graph runs both verifiers on one edge list given as a table.
func graph(w int, kind string, us, vs []uint64) {
	tables[w].us, tables[w].vs = nil, nil
	tables[w].du, tables[w].dv = us, vs
	want := ref.SimpleCycle(us, vs)
	n := len(us)
	h := uint64(len(kind))
	for i := range us {
		h = h*1000003 + us[i]*131 + vs[i] + 7
	}
	// non-trivial: there is some cycle or a branch, i.e. the walk leaves the first edge
	nontriv := want
	for i := 1; i < n && !nontriv; i++ {
		nontriv = us[i] == us[0] || vs[i] == vs[0]
	}
	replay := func() interface{} {
		return map[string]interface{}{"us": append([]uint64(nil), us...), "vs": append([]uint64(nil), vs...), "nonces": "0..n-1"}
	}
	key := fmt.Sprint(us, vs)
	nonces := seqOf(n)
	check("cuckaroo/"+kind, key, func() bool { return roos[w].Verify(nonces, 16) }, want, nontriv, h, replay)
	check("cuckoo/"+kind, key, func() bool { return oos[w].Verify(nonces, 100) }, want, nontriv, h+1, replay)
}

var seqs [64][]uint32
var roos [64]*cuckoo.Cuckaroo
var oos [64]*cuckoo.Cuckoo

func main() {
	hv.Main("C01", "exploration", "every edge pattern (pair of set partitions of n ordered edges, which is every bipartite multigraph up to renaming vertices) through both Verify functions, with the siphash replaced by a table; every subset of the edges of small graphs under real keys; every nonce sequence over small ranges. Non-trivial: at least one more edge meets an end of the first one, so that the walk starts (patterns), or the subset contains a vertex of degree two or more (real graphs), or the sequence violates exactly the ordering or range rule.", run)
}

func run(ctx *hv.Ctx) {
	c = ctx
	for i := range seqs {
		seqs[i] = seq(i)
	}
	for w := range tables {
		tables[w] = &table{}
		byKey[ref.Key(header(w))[0]] = w
		byKey[roo(w)[0]] = w
		roos[w] = cuckoo.NewFromKeys(roo(w))
		oos[w] = cuckoo.New(header(w), 17)
	}
	if hooked() {
		patterns()
		ranges()
	} else {
		c.Incomplete("the edges are not computed by siphash24/siphashBlock any more: only real graphs were checked")
	}
	for i := range tables {
		tables[i] = nil
	}
	real()
}

func real() {
	// every subset of the edges of small real graphs
	type job struct {
		kind string
		k    int
	}
	var jobs []job
	keys := 60
	if c.Thorough {
		keys = 1500
	}
	for k := 0; k < keys; k++ {
		jobs = append(jobs, job{"oo4", k}, job{"roo4", k})
		if k%2 == 0 {
			jobs = append(jobs, job{"oo3", k}, job{"roo3", k}, job{"roo2", k}, job{"oo2", k}, job{"roo1", k})
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		hdr := []byte(fmt.Sprintf("%s/%d", j.kind, j.k))
		key := ref.Key(hdr)
		var us, vs []uint64
		var ok func([]uint32) bool
		var bits uint
		if j.kind[0] == 'o' {
			bits = uint(j.kind[2] - '0') // vertices 2^bits in total, edges 2^bits at ease 100
			cu := cuckoo.New(hdr, uint8(bits))
			ok = func(n []uint32) bool { return cu.Verify(n, 100) }
			mask := uint64(1)<<bits/2 - 1
			for n := uint64(0); n < 1<<bits; n++ {
				us = append(us, ref.Siphash24(key, 2*n)&mask)
				vs = append(vs, ref.Siphash24(key, 2*n+1)&mask)
			}
		} else {
			bits = uint(j.kind[3] - '0')
			var cu *cuckoo.Cuckaroo
			if j.k%2 == 0 {
				cu = cuckoo.NewCuckaroo(hdr)
			} else {
				cu = cuckoo.NewFromKeys(key)
			}
			ok = func(n []uint32) bool { return cu.Verify(n, uint8(bits)) }
			mask := uint64(1)<<bits - 1
			for n := uint64(0); n < 1<<bits; n++ {
				e := ref.SiphashBlock(key, n)
				us = append(us, e&mask)
				vs = append(vs, e>>32&mask)
			}
		}
		n := len(us)
		subset := make([]uint32, 0, n)
		su, sv := make([]uint64, 0, n), make([]uint64, 0, n)
		for m := 0; m < 1<<uint(n); m++ {
			if m%4096 == 0 && c.Stopped() {
				return
			}
			subset, su, sv = subset[:0], su[:0], sv[:0]
			var seenU, seenV, dup uint64
			for b := 0; b < n; b++ {
				if m>>uint(b)&1 == 1 {
					subset = append(subset, uint32(b))
					su, sv = append(su, us[b]), append(sv, vs[b])
					dup |= seenU>>us[b]&1 | seenV>>vs[b]&1
					seenU |= 1 << us[b]
					seenV |= 1 << vs[b]
				}
			}
			if n == 16 && !c.Thorough && len(subset) > 10 && j.k >= 16 {
				continue // quick: the large subsets only for the first keys
			}
			want := ref.SimpleCycle(su, sv)
			if want {
				c.Outcome(fmt.Sprintf("real %d-cycle accepted", len(subset)))
			}
			if !check("real/"+j.kind, fmt.Sprint(j.k, subset), func() bool { return ok(subset) }, want, dup != 0, uint64(i)<<20|uint64(m),
				func() interface{} {
					return map[string]interface{}{"kind": j.kind, "header": string(hdr), "nonces": append([]uint32(nil), subset...)}
				}) {
				return
			}
		}
	})
}

func hooked() bool {
	cuckoo.VerifHook = hook
	tables[0].du, tables[0].dv = []uint64{5, 6, 7}, []uint64{15, 16, 17}
	e := roos[0].NewEdge(1, 1<<16-1)
	f := oos[0].NewEdge(2)
	return e.U == 6 && e.V == 16 && f.U == 7<<1 && f.V == 17<<1|1
}

func patterns() {
	max := 8
	for n := 0; n <= max; n++ {
		ps := partitions(n)
		c.Set(fmt.Sprintf("patterns_%d_edges", n), len(ps)*len(ps))
		c.Par(len(ps), func(i int) {
			w := <-workers
			defer func() { workers <- w }()
			for _, q := range ps {
				graph(w, "pattern", ps[i], q)
				if c.Stopped() {
					return
				}
			}
		})
	}
	// every pair of perfect matchings: unions of cycles in every order
	top := 10
	if c.Thorough {
		top = 12
	}
	for n := 10; n <= top; n += 2 {
		ps := matchings(n)
		c.Par(len(ps), func(i int) {
			w := <-workers
			defer func() { workers <- w }()
			for _, q := range ps {
				graph(w, "matching", ps[i], q)
				if c.Stopped() {
					return
				}
			}
		})
	}
	// nine edges: every U partition with even blocks at most 4 against every V partition (thorough)
	if c.Thorough {
		ps := partitions(9)
		c.Par(len(ps), func(i int) {
			w := <-workers
			defer func() { workers <- w }()
			for _, q := range ps {
				graph(w, "pattern", ps[i], q)
				if c.Stopped() {
					return
				}
			}
		})
	}
	// full size: cycles of 42 edges and what almost is one
	type g struct {
		kind   string
		us, vs []uint64
	}
	var gs []g
	add := func(kind string, us, vs []uint64) {
		n := len(us)
		// several fixed orders of the edges
		for _, step := range []int{1, 5, 11, 13, 17, 25, 41} {
			for _, off := range []int{0, 1, n / 2, n - 1} {
				u2, v2 := make([]uint64, n), make([]uint64, n)
				if gcd(step, n) != 1 {
					continue
				}
				for i := range us {
					u2[(i*step+off)%n], v2[(i*step+off)%n] = us[i], vs[i]
				}
				gs = append(gs, g{kind, u2, v2})
			}
		}
	}
	cycle := func(n int, base uint64) (us, vs []uint64) {
		for i := 0; i < n; i++ {
			us = append(us, base+uint64((i+1)/2%(n/2)))
			vs = append(vs, base+uint64(i/2))
		}
		return
	}
	for n := 2; n <= 140; n += 2 {
		us, vs := cycle(n, 0)
		add(fmt.Sprintf("cycle%d", n), us, vs)
	}
	for _, n := range []int{254, 256, 258, 260, 300, 510, 512, 514, 1022, 1024, 1026, 2050} {
		us, vs := cycle(n, 0)
		add(fmt.Sprintf("cycle%d", n), us, vs)
		// and not quite a cycle
		for _, i := range []int{0, 1, n / 2, n - 1} {
			u2, v2 := append([]uint64{}, us...), append([]uint64{}, vs...)
			u2[i] = 99999
			gs = append(gs, g{"long-broken", u2, v2})
			u3, v3 := append([]uint64{}, us...), append([]uint64{}, vs...)
			v3[i] = v3[(i+n/2)%n]
			gs = append(gs, g{"long-broken", u3, v3})
		}
	}
	for n := 44; n <= 140; n += 2 { // two cycles, a cycle with a branch, beyond the usual size
		for _, a := range []int{2, 4, 20, 42, n / 4 * 2, n - 2} {
			if a < 2 || a > n-2 {
				continue
			}
			u1, v1 := cycle(a, 0)
			u2, v2 := cycle(n-a, 1000)
			add("two-cycles", append(append([]uint64{}, u1...), u2...), append(append([]uint64{}, v1...), v2...))
			u3 := append(append([]uint64{}, u1...), u2...)
			for i := range u3 {
				if u3[i] == 1000 {
					u3[i] = u1[0]
				}
			}
			add("figure-eight", u3, append(append([]uint64{}, v1...), v2...))
		}
	}
	for a := 2; a < 42; a += 2 { // two cycles, apart, or sharing a vertex
		u1, v1 := cycle(a, 0)
		u2, v2 := cycle(42-a, 100)
		add("two-cycles", append(append([]uint64{}, u1...), u2...), append(append([]uint64{}, v1...), v2...))
		u3 := append(append([]uint64{}, u1...), u2...)
		for i := range u3 {
			if u3[i] == 100 {
				u3[i] = u1[0]
			}
		}
		add("figure-eight", u3, append(append([]uint64{}, v1...), v2...))
	}
	for a := 2; a <= 41; a++ { // cycle of a (or a-1) with a tail
		n := a / 2 * 2
		us, vs := cycle(n, 0)
		u, v := us[0], uint64(200)
		for len(us) < 42 {
			us, vs = append(us, u), append(vs, v)
			if len(us)%2 == 0 {
				u = 300 + uint64(len(us))
			} else {
				v = 300 + uint64(len(us))
			}
		}
		add("lollipop", us, vs)
	}
	us, vs := cycle(42, 0)
	for i := 0; i < 42; i++ { // every end moved to every other vertex
		for t := uint64(0); t <= 22; t++ {
			u2, v2 := append([]uint64{}, us...), append([]uint64{}, vs...)
			u2[i] = t
			gs = append(gs, g{"moved-end", u2, v2})
			u3, v3 := append([]uint64{}, us...), append([]uint64{}, vs...)
			v3[i] = t
			gs = append(gs, g{"moved-end", u3, v3})
		}
		for j := 0; j < i; j++ { // every two ends swapped
			u2 := append([]uint64{}, us...)
			u2[i], u2[j] = u2[j], u2[i]
			gs = append(gs, g{"swapped-ends", u2, vs})
		}
	}
	c.Par(len(gs), func(i int) {
		w := <-workers
		defer func() { workers <- w }()
		graph(w, gs[i].kind, gs[i].us, gs[i].vs)
	})
}

var workers = func() chan int {
	ch := make(chan int, 16)
	for i := 0; i < 16; i++ {
		ch <- i
	}
	return ch
}()

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// ranges: the ordering and range rules, on nonces that do form a cycle.
func ranges() {
	w := 0
	t := tables[w]
	// all sequences over 0..n+1 of length n, where 0..n-1 in any order is a cycle
	for _, n := range []int{2, 4, 6} {
		us, vs := make([]uint64, n), make([]uint64, n)
		for i := 0; i < n; i++ {
			us[i], vs[i] = uint64((i+1)/2%(n/2)), uint64(i/2)
		}
		t.us, t.vs = map[uint64]uint64{}, map[uint64]uint64{}
		for i := 0; i < n; i++ {
			t.us[uint64(i)], t.vs[uint64(i)] = us[i], vs[i]
			t.us[uint64(i+n)], t.vs[uint64(i+n)] = us[i], vs[i]
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= n + 2
		}
		s := make([]uint32, n)
		for m := 0; m < total && !c.Stopped(); m++ {
			x := m
			asc := true
			var su, sv []uint64
			for i := range s {
				s[i] = uint32(x % (n + 2))
				x /= n + 2
				asc = asc && (i == 0 || s[i] > s[i-1])
				su, sv = append(su, t.us[uint64(s[i])]), append(sv, t.vs[uint64(s[i])])
			}
			cyc := ref.SimpleCycle(su, sv)
			replay := func() interface{} { return fmt.Sprintf("nonces %v", s) }
			check("order/cuckaroo", fmt.Sprint(s), func() bool { return roos[w].Verify(s, 16) }, asc && cyc, cyc, uint64(n)<<40|uint64(m)<<1|1<<50, replay)
			check("order/cuckoo", fmt.Sprint(s), func() bool { return oos[w].Verify(s, 100) }, asc && cyc, cyc, uint64(n)<<40|uint64(m)<<1|1<<51, replay)
		}
	}
	// the range limit: a cycle whose largest nonce is around the limit
	try := func(kind string, n int, last uint64, limit uint64, ok func([]uint32) bool) {
		t.us, t.vs = map[uint64]uint64{}, map[uint64]uint64{}
		var s []uint32
		for i := 0; i < n-1; i++ {
			s = append(s, uint32(i))
		}
		s = append(s, uint32(last))
		if last < uint64(n-1) || last > 1<<32-1 {
			return
		}
		for i, x := range s {
			t.us[uint64(x)], t.vs[uint64(x)] = uint64((i+1)/2%(n/2)), uint64(i/2)
		}
		var hb [16]byte
		binary.LittleEndian.PutUint64(hb[:], last)
		check(kind, fmt.Sprint(n, last), func() bool { return ok(s) }, last < limit, true, hv.Hash64([]byte(kind), hb[:], []byte{byte(n)}),
			func() interface{} { return fmt.Sprintf("cycle of nonces %v, limit %d", s, limit) })
	}
	around := func(limit uint64) (out []uint64) {
		set := map[uint64]bool{}
		for d := uint64(0); d <= 4; d++ {
			set[limit+d] = true
			set[limit-d] = true
		}
		for _, m := range []uint64{limit / 2, limit * 2, limit*2 - 1, 1<<32 - 1, 1 << 31} {
			set[m] = true
		}
		for k := range set {
			out = append(out, k)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return
	}
	for _, n := range []int{2, 4, 6} {
		for eb := 1; eb <= 32; eb++ {
			if 1<<uint(eb) < n || (n == 6 && eb < 2) {
				continue
			}
			limit := uint64(1) << uint(eb)
			for _, last := range around(limit) {
				try(fmt.Sprintf("range/cuckaroo/%d", eb), n, last, limit, func(s []uint32) bool { return roos[w].Verify(s, uint8(eb)) })
			}
		}
		for shift := 3; shift <= 32; shift++ {
			cu := cuckoo.New(header(w), uint8(shift))
			for _, ease := range []uint64{1, 10, 49, 50, 51, 75, 99, 100} {
				limit := ease * (uint64(1) << uint(shift)) / 100
				for _, last := range around(limit) {
					try(fmt.Sprintf("range/cuckoo/%d/%d", shift, ease), n, last, limit, func(s []uint32) bool { return cu.Verify(s, ease) })
				}
			}
		}
	}
}
