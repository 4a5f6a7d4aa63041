// Package realchain runs the packages chain and p2p with a stored chain of
// real (hooked) blocks under the scheduler.
package realchain

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/cuckoo"

	"verif/conv"
	"verif/fix"
	"verif/memstore"
	"verif/psim"
	"verif/ref"
	"verif/vsched"
	"verif/vsched/vnet"
)

const length = 6

// fixture is a stored chain of hooked blocks and candidates for the next one.
type fixture struct {
	gen    *consensus.Block
	h      []*ref.Header // heights 1..
	blocks []*consensus.Block
	next   map[string]*ref.Block
}

// cyc is edge i of a 42-cycle.
func cyc(i uint64) (u, v uint64) { return 7 + (i+1)/2%21, 1000 + i/2 }

func build() *fixture {
	cuckoo.VerifHook = func(block bool, key [4]uint64, nonce uint64) (uint64, bool) {
		if !block || nonce%64 >= 42 || nonce < 6400 || nonce >= 6400+64*4000 {
			return 0, false
		}
		u, v := cyc(nonce % 64)
		return u | v<<32, true
	}
	_, by := fix.Headers()
	w := &fixture{next: map[string]*ref.Block{}}
	g := chain.Testnet4
	w.gen = &g
	prev := g.Hash()
	td := uint64(g.Header.TotalDifficulty)
	for i := 1; i <= length+1; i++ {
		h := *by["b1"].H
		h.Height = uint64(i)
		h.TS += 60 * int64(i)
		h.TD = td
		copy(h.Previous[:], prev)
		h.Nonces = memstore.Nonces(uint32(100 + i))
		td += h.Diff()
		hash := h.Hash()
		prev = hash[:]
		w.h = append(w.h, &h)
		if i <= length {
			w.blocks = append(w.blocks, memstore.Block(&h))
		}
	}
	o, k := memstore.Body()
	mk := func(name string, f func(b *ref.Block)) {
		h := *w.h[length]
		b := &ref.Block{Head: &h, Outputs: []ref.Output{o}, Kernels: []ref.Kernel{k}}
		f(b)
		w.next[name] = b
	}
	mk("next", func(b *ref.Block) {})
	mk("head", func(b *ref.Block) { *b.Head = *w.h[length-1] })
	mk("old", func(b *ref.Block) { *b.Head = *w.h[1] })
	mk("orphan", func(b *ref.Block) { b.Head.Previous = [32]byte{1} })
	mk("kernel", func(b *ref.Block) { b.Kernels[0].Sig[50] ^= 4 })
	mk("early", func(b *ref.Block) { b.Head.TS = w.h[length-1].TS })
	mk("total", func(b *ref.Block) { b.Head.TD++ })
	mk("version", func(b *ref.Block) { b.Head.Version = 9 })
	return w
}

// Bytes is a valid block for the end of the stored chain, which its chain
// is, and the hook for its proof of work is set.
func Bytes() (next []byte, stored []*consensus.Block) {
	w := build()
	return w.next["next"].Bytes(), w.blocks
}

func toRepo(b *ref.Block) *consensus.Block {
	x := new(consensus.Block)
	if err := x.Read(bytes.NewReader(b.Bytes())); err != nil {
		panic(err)
	}
	return x
}

// store takes a step at each use.
type store struct {
	*memstore.Store
	o *vsched.Obj
}

func (s *store) step() {
	if s.o != nil {
		vsched.StepOn("storage", s.o, true)
	}
}
func (s *store) GetBlock(id consensus.BlockID) *consensus.Block {
	s.step()
	return s.Store.GetBlock(id)
}
func (s *store) From(id consensus.BlockID, n int) consensus.BlockList {
	s.step()
	return s.Store.From(id, n)
}

func (w *fixture) open(o *vsched.Obj) *chain.Chain {
	m := &memstore.Store{Main: append([]*consensus.Block{w.gen}, w.blocks...), Last: w.blocks[length-1]}
	return chain.New(w.gen, &store{m, o})
}

func (w *fixture) hash(i int) []byte { h := w.h[i-1].Hash(); return h[:] }

type op struct {
	name string
	f    func(w *fixture, c *chain.Chain) string
}

func block(b *consensus.Block) string {
	if b == nil {
		return "none"
	}
	return fmt.Sprint(b.Header.Height)
}

func headers(l []consensus.BlockHeader) string {
	s := "headers"
	for _, h := range l {
		s += fmt.Sprint(" ", h.Height)
	}
	return s
}

func verdict(err error) string {
	if err != nil {
		return "rejected"
	}
	return "accepted"
}

func locate(l ...[]byte) func(w *fixture, c *chain.Chain) string {
	return func(w *fixture, c *chain.Chain) string {
		var loc consensus.Locator
		for _, h := range l {
			loc.Hashes = append(loc.Hashes, h)
		}
		return headers(c.GetBlockHeaders(loc))
	}
}

func process(name string) op {
	return op{"block " + name, func(w *fixture, c *chain.Chain) string { return verdict(c.ProcessBlock(parsed[name])) }}
}

var parsed = map[string]*consensus.Block{}

func ops(w *fixture) (l []op) {
	many := make([][]byte, 20)
	for i := range many {
		many[i] = bytes.Repeat([]byte{byte(i)}, 32)
	}
	good := []consensus.BlockHeader{conv.Header(w.h[0]), conv.Header(w.h[1])}
	bad := append(append([]consensus.BlockHeader(nil), good...), conv.Header(w.next["version"].Head))
	l = append(l,
		op{"state", func(w *fixture, c *chain.Chain) string {
			c.RLock()
			defer c.RUnlock()
			return fmt.Sprint("state ", c.TotalDifficulty(), " ", c.Height())
		}},
		op{"locate", locate(w.hash(2))},
		op{"locate head", locate(w.hash(length), w.hash(2))},
		op{"locate none", locate(many...)},
		op{"get", func(w *fixture, c *chain.Chain) string { return block(c.GetBlock(w.hash(3))) }},
		op{"get none", func(w *fixture, c *chain.Chain) string { return block(c.GetBlock(bytes.Repeat([]byte{9}, 32))) }},
		op{"get id", func(w *fixture, c *chain.Chain) string {
			n := uint64(4)
			return block(c.GetBlockID(consensus.BlockID{Height: &n}))
		}},
		op{"headers", func(w *fixture, c *chain.Chain) string { return verdict(c.ProcessHeaders(good)) }},
		op{"bad headers", func(w *fixture, c *chain.Chain) string { return verdict(c.ProcessHeaders(bad)) }},
		op{"validate", func(w *fixture, c *chain.Chain) string { return verdict(c.Validate()) }},
		op{"head", func(w *fixture, c *chain.Chain) string {
			h, g := c.Head(), c.Genesis()
			return fmt.Sprint(h.Header.Height, " ", g.Header.Height)
		}},
	)
	var names []string
	for n := range w.next {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		parsed[n] = toRepo(w.next[n])
		parsed[n].Header.Difficulty = 1000000 // it is not on the wire
		l = append(l, process(n))
	}
	return
}

// want are the results of the operations when they are made alone, checked
// against what the fixture defines.
var want = map[string]string{
	"state": "", "locate": "headers 3 4 5 6", "locate head": "headers", "locate none": "headers", "get": "3", "get none": "none", "get id": "4",
	"headers": "accepted", "bad headers": "rejected", "validate": "accepted", "head": "6 0",
	"block next": "accepted", "block head": "accepted", "block old": "accepted", "block orphan": "accepted",
	"block kernel": "rejected", "block early": "rejected", "block total": "rejected", "block version": "rejected",
}

func concurrent(w *fixture, use [][]op) func() {
	return func() {
		c := w.open(vsched.NewObj())
		var ts []*vsched.Thread
		for i, l := range use {
			l := l
			ts = append(ts, vsched.Spawn(fmt.Sprintf("user %d", i), func() {
				for _, o := range l {
					if got := o.f(w, c); got != want[o.name] {
						vsched.Fail("answer", "%s: got %q, alone it is %q", o.name, got, want[o.name])
					}
				}
			}))
		}
		vsched.Settle(1000 * vsched.Second)
		for _, t := range ts {
			if !t.Done() {
				vsched.Fail("blocked", "%s does not return: %s", t.Name, t.Waiting())
			}
		}
		// the chain is free and unchanged
		late := vsched.Spawn("late user", func() {
			c.Lock()
			c.Unlock()
			for _, n := range []string{"state", "locate", "block kernel", "validate", "head"} {
				for _, o := range all {
					if o.name == n {
						if got := o.f(w, c); got != want[n] {
							vsched.Fail("changed", "%s afterwards: got %q, before it was %q", n, got, want[n])
						}
					}
				}
			}
		})
		vsched.Settle(1000 * vsched.Second)
		if !late.Done() {
			vsched.Fail("not free", "the chain is not free afterwards: a late user waits: %s", late.Waiting())
		}
		vsched.Outcome("all return")
	}
}

var all []op

// message is something a peer sends, and what it must get.
type message struct {
	name   string
	frame  []byte
	answer string // "", or the expected frame
	bans   bool
	relay  bool
}

func u64(b []byte) (v uint64) {
	for _, x := range b[:8] {
		v = v<<8 | uint64(x)
	}
	return
}

func messages(w *fixture) (l []message) {
	var hs []byte
	hs = append(hs, 0, length-2)
	for _, h := range w.h[2:length] {
		hs = append(hs, h.Bytes()...)
	}
	td := w.h[length-1].TD
	l = append(l,
		message{"ping", psim.Ping(1, 1), string(psim.Pong(td, length)), false, false},
		message{"get headers", psim.GetHeaders(w.hash(2)), string(psim.Frame(psim.THeaders, hs)), false, false},
		message{"get block", psim.Frame(psim.TGetBlock, w.hash(3)), string(psim.Frame(psim.TBlock, w.blocks[2].Bytes())), false, false},
		message{"get no block", psim.Frame(psim.TGetBlock, make([]byte, 32)), "", false, false},
		message{"bad headers", psim.Frame(psim.THeaders, append([]byte{0, 1}, w.next["version"].Head.Bytes()...)), "", true, false},
	)
	for _, n := range []string{"orphan", "head", "kernel", "total"} {
		l = append(l, message{"block " + n, psim.Frame(psim.TBlock, w.next[n].Bytes()), "", want["block "+n] == "rejected", n == "head"})
	}
	return
}

// node: two peers each send up to two messages to a node with the real chain,
// while a user may validate the chain.
func node(w *fixture, sent [2][]message, user []op) func() {
	return func() {
		a := [2]string{"10.1.0.1:3414", "10.1.0.2:3414"}
		c := w.open(vsched.NewObj())
		n := psim.New(psim.Opt{Addrs: a[:], Limit: 2, Chain: c, Plan: func(addr string, k int) vnet.Plan { return psim.Greet() }})
		vsched.Freeze(true)
		n.Start()
		if !psim.Until(20*vsched.Second, func() bool {
			for _, x := range a {
				if c := n.Open(x); c == nil || len(psim.After(c)) < 2 {
					return false
				}
			}
			return true
		}) {
			vsched.Fail("connect", "the peers are not connected")
		}
		// the second peer knows as much as the chain: a relayed block is for the first one
		var before [2]int
		for i, x := range a {
			before[i] = len(psim.After(n.Open(x)))
		}
		vsched.Freeze(false)
		conns := [2]*vnet.TCPConn{n.Open(a[0]), n.Open(a[1])}
		for i, l := range sent {
			for _, m := range l {
				conns[i].Feed(m.frame)
			}
		}
		t := vsched.Spawn("user", func() {
			for _, o := range user {
				if got := o.f(w, c); got != want[o.name] {
					vsched.Fail("answer", "%s: got %q, alone it is %q", o.name, got, want[o.name])
				}
			}
		})
		vsched.Settle(5 * vsched.Second)
		if !t.Done() {
			vsched.Fail("blocked", "a user of the chain does not return: %s", t.Waiting())
		}
		for i := range a {
			var exp []string
			banned := false
			for _, m := range sent[i] {
				if banned {
					break
				}
				if m.answer != "" {
					exp = append(exp, m.answer)
				}
				banned = banned || m.bans
			}
			var got []string
			for _, m := range psim.After(conns[i])[before[i]:] {
				f := string(psim.Frame(m.Type, m.Body))
				if m.Type == psim.TBlock && !bytes.Equal([]byte(f), psim.Frame(psim.TBlock, w.blocks[2].Bytes())) {
					continue // relayed, see C26
				}
				got = append(got, f)
			}
			if len(got) != len(exp) && !(banned && len(got) < len(exp)) {
				vsched.Fail("answers", "peer %d got %d answers, expected %d", i, len(got), len(exp))
			}
			for k := range got {
				if got[k] != exp[k] {
					vsched.Fail("answer", "peer %d got %x as answer %d, expected %x", i, got[k][:min(len(got[k]), 80)], k, exp[k][:min(len(exp[k]), 80)])
				}
			}
			if banned != conns[i].Closed() {
				vsched.Fail("connection", "the connection of peer %d is closed: %v, expected %v", i, conns[i].Closed(), banned)
			}
		}
		late := vsched.Spawn("late user", func() { c.Lock(); c.Unlock() })
		vsched.Settle(vsched.Second)
		if !late.Done() {
			vsched.Fail("not free", "the chain is not free afterwards")
		}
		n.Finish()
		vsched.Outcome("served")
	}
}

// Scenarios lists the combinations of users and messages.
func Scenarios(thorough bool) (l []psim.Scenario) {
	w := build()
	all = ops(w)
	want["state"] = fmt.Sprint("state ", w.h[length-1].TD, " ", length)
	add := func(use ...[]op) {
		name := ""
		for _, u := range use {
			name += "("
			for i, o := range u {
				if i > 0 {
					name += ", "
				}
				name += o.name
			}
			name += ")"
		}
		q := []vsched.Config{psim.Cfg(2, 0), psim.Pts(1, 0)}
		if len(use) == 2 {
			q = []vsched.Config{psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0)}
		}
		l = append(l, psim.Scenario{Name: name, Body: concurrent(w, use), Quick: q, Deep: []vsched.Config{psim.Cfg(4, 0), psim.Cfg(3, 1), psim.Pts(3, 0)}})
	}
	for i, a := range all {
		for j, b := range all {
			add([]op{a, b})
			if i <= j {
				add([]op{a}, []op{b})
			}
			for _, x := range all[j:] {
				if i <= j && (thorough || i == j || b.name == x.name || a.name == "state") {
					add([]op{a}, []op{b}, []op{x})
				}
			}
		}
	}
	ms := messages(w)
	validate := []op{all[9]}
	for i, a := range ms {
		for j, b := range ms {
			if i <= j {
				for k, u := range [][]op{nil, validate} {
					q := []vsched.Config{psim.Cfg(1, 0)}
					if k == 0 {
						q = append(q, psim.Cfg(1, 1))
					}
					l = append(l, psim.Scenario{Name: fmt.Sprintf("node [%s | %s] %d", a.name, b.name, len(u)), Body: node(w, [2][]message{{a}, {b}}, u),
						Quick: q, Deep: []vsched.Config{psim.Cfg(2, 0), psim.Cfg(2, 1), psim.Pts(1, 0)}})
				}
			}
			l = append(l, psim.Scenario{Name: fmt.Sprintf("node [%s, %s | ping]", a.name, b.name), Body: node(w, [2][]message{{a, b}, {ms[0]}}, nil),
				Quick: []vsched.Config{psim.Cfg(0, 0)}, Deep: []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1)}})
		}
	}
	return
}
