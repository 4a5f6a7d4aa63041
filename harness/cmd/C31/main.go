// C31: shared data is only accessed under synchronisation.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/cuckoo"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/secp256k1zkp"

	"verif/conv"
	"verif/memstore"
	"verif/psim"
	"verif/realchain"
	"verif/ref"
	"verif/vsched"
	"verif/vsched/vnet"
)

const (
	A = "10.1.0.1:3414"
	B = "10.1.0.2:3414"
	C = "10.1.0.3:3414" // connects later
	D = "10.1.0.4:3414" // is told by a peer
)

// world is a node with a model of the chain and two connected peers.
type world struct {
	n      *psim.Node
	a, b   *vnet.TCPConn
	stored *consensus.Block

	stopped bool
}

type actor struct {
	name string
	f    func(w *world)
}

func hash(x byte) []byte { return bytes.Repeat([]byte{x}, 32) }

// body is a block with lists in the wrong order.
func body(height uint64) *consensus.Block {
	b := chain.Testnet4
	b.Header.Height = height
	b.Header.TotalDifficulty = consensus.Difficulty(height * 10)
	var ins []ref.Input
	for i := byte(4); i > 0; i-- {
		in := ref.Input{Features: 1}
		in.Commit[0], in.Commit[1] = 8, i
		ins = append(ins, in)
	}
	b.Inputs, b.Outputs, b.Kernels = conv.Lists(ins, nil, nil)
	return &b
}

func plain(height uint64) *consensus.Block {
	b := body(height)
	b.Inputs = nil
	return b
}

func hdrs(heights ...uint64) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(heights)))
	for _, h := range heights {
		x := chain.Testnet4.Header
		x.Height = h
		b = append(b, x.Bytes()...)
	}
	return psim.Frame(psim.THeaders, b)
}

// frames are what a peer may send.
var frames = []struct {
	name string
	b    func() []byte
}{
	{"ping", func() []byte { return psim.Ping(7, 3) }},
	{"pong", func() []byte { return psim.Pong(9, 9) }},
	{"getaddrs", func() []byte { return psim.Frame(psim.TGetPeerAddrs, []byte{0, 0, 0, 0}) }},
	{"getaddrs full", func() []byte { return psim.Frame(psim.TGetPeerAddrs, []byte{0, 0, 0, 7}) }},
	{"addrs", func() []byte { return psim.Addrs(D, C) }},
	{"getheaders", func() []byte { return psim.GetHeaders(hash(1), hash(2)) }},
	{"headers", func() []byte { return hdrs(20, 21) }},
	{"bad headers", func() []byte { return hdrs(666) }},
	{"header", func() []byte { return psim.Frame(psim.THeader, hdrs(22)[13:]) }},
	{"getblock", func() []byte { return psim.Frame(psim.TGetBlock, hash(9)) }},
	{"block", func() []byte { return psim.Frame(psim.TBlock, plain(6).Bytes()) }},
	{"old block", func() []byte { return psim.Frame(psim.TBlock, plain(2).Bytes()) }},
	{"bad block", func() []byte { return psim.Frame(psim.TBlock, plain(666).Bytes()) }},
	{"tx", func() []byte { return psim.Frame(psim.TTransaction, tx(1)) }},
	{"bad tx", func() []byte { return psim.Frame(psim.TTransaction, tx(666)) }},
	{"junk", func() []byte { return bytes.Repeat([]byte{3}, 30) }},
}

func tx(fee uint64) []byte {
	t := new(consensus.Transaction)
	_, k := memstore.Body()
	k.Fee = fee
	_, _, t.Kernels = conv.Lists(nil, nil, []ref.Kernel{k})
	return t.Bytes()
}

func actors() (l []actor) {
	for _, f := range frames {
		f := f
		l = append(l, actor{"A " + f.name, func(w *world) { w.a.Feed(f.b()) }})
		l = append(l, actor{"B " + f.name, func(w *world) { w.b.Feed(f.b()) }})
	}
	l = append(l,
		actor{"A ends", func(w *world) { w.a.RemoteClose() }},
		actor{"A resets", func(w *world) { w.a.RemoteReset() }},
		actor{"relay", func(w *world) { w.n.S.Pool.PropagateBlock(body(8)) }},
		actor{"relay stored", func(w *world) { w.n.S.Pool.PropagateBlock(w.stored) }},
		actor{"list", func(w *world) { w.n.S.Pool.Peers(0).Bytes() }},
		actor{"list full", func(w *world) { w.n.S.Pool.Peers(7).Bytes() }},
		actor{"ban A", func(w *world) { w.n.S.Pool.Ban(A) }},
		actor{"ban B", func(w *world) { w.n.S.Pool.Ban(B) }},
		actor{"ban C", func(w *world) { w.n.S.Pool.Ban(C) }},
		actor{"add C", func(w *world) { w.n.S.Pool.Add(C) }},
		actor{"add D", func(w *world) { w.n.S.Pool.Add(D) }},
		actor{"add A", func(w *world) { w.n.S.Pool.Add(A) }},
		actor{"info", func(w *world) {
			w.n.Banned(A)
			for _, x := range []string{A, B} {
				if p := w.n.Peer(x); p != nil {
					info(p)
				}
			}
		}},
		actor{"stop", func(w *world) { w.stopped = true; w.n.S.Stop() }},
		actor{"grow", func(w *world) { w.n.Chain.Grow(7, 70) }},
	)
	return
}

// start makes a node; connected waits for the peers.
func start(connected bool, addrs ...string) *world {
	pool := &psim.Pool{Err: func(t *consensus.Transaction) error {
		if len(t.Kernels) > 0 && t.Kernels[0].Fee == 666 {
			return errors.New("bad")
		}
		return nil
	}}
	vsched.Freeze(true)
	n := psim.New(psim.Opt{Addrs: addrs, Limit: 3, Mempool: pool, Plan: func(a string, k int) vnet.Plan {
		if a == D {
			return vnet.Plan{Refuse: true}
		}
		return psim.Greet()
	}})
	w := &world{n: n, stored: body(9)}
	n.Chain.Blocks[string(hash(9))] = w.stored
	n.Chain.Headers = func(loc consensus.Locator) (l []consensus.BlockHeader) {
		for i := uint64(1); i < 4; i++ {
			l = append(l, plain(i).Header)
		}
		return
	}
	n.Chain.BadHdr = func(h []consensus.BlockHeader) error {
		if len(h) > 0 && h[0].Height == 666 {
			return errors.New("bad")
		}
		return nil
	}
	n.Chain.BadBlk = func(b *consensus.Block) error {
		if b.Header.Height == 666 {
			return errors.New("bad")
		}
		return nil
	}
	n.Chain.Top = func(b *consensus.Block) bool { return b.Header.Height == 6 }
	n.Start()
	if connected && !psim.Until(20*vsched.Second, func() bool {
		for _, a := range addrs {
			if c := n.Open(a); c == nil || len(psim.After(c)) < 2 {
				return false
			}
		}
		return true
	}) {
		vsched.Fail("connect", "the peers are not connected")
	}
	vsched.Freeze(false)
	w.a, w.b = n.Open(A), n.Open(B)
	return w
}

func (w *world) act(l []actor) {
	for _, x := range l {
		x := x
		vsched.Spawn(x.name, func() { x.f(w) })
	}
	vsched.Settle(8 * vsched.Second)
	if w.stopped {
		w.n.Ended()
	} else {
		w.n.Finish()
	}
	vsched.Outcome("quiet")
}

// serving: actors at a node with two connected peers.
func serving(l []actor) func() {
	return func() { start(true, A, B).act(l) }
}

// connecting: actors at a node that is still connecting.
func connecting(l []actor) func() {
	return func() { start(false, A, B, C).act(l) }
}

// direct: users of two connections that belong to no pool, with one block for both.
func direct(use []string, accepted bool) func() {
	return func() {
		n := psim.New(psim.Opt{Addrs: []string{A, B}, Plan: func(string, int) vnet.Plan { return psim.Greet() }})
		var ps [2]*p2p.Peer
		var cs [2]*vnet.TCPConn
		for i, a := range []string{A, B} {
			var err error
			if accepted {
				b := []byte{0, 0, 0, 1, 0, 0, 0, 7, 1, 2, 3, 4, 5, 6, 7, byte(i), 0, 0, 0, 0, 0, 0, 0, 1}
				b = append(b, 0, 10, 0, 0, 2, 0x0d, 0x56, 0, 10, 0, 0, 3, 0x0d, 0x56)
				b = append(b, 0, 0, 0, 0, 0, 0, 0, 1, 'x')
				cs[i] = vnet.NewConn(a, vnet.Plan{In: [][]byte{psim.Frame(psim.THand, append(b, chain.Testnet4.Hash()...))}})
				ps[i], err = p2p.AcceptNewPeer(cs[i])
			} else {
				ps[i], err = p2p.NewPeer(n.S, a)
				cs[i] = n.Conn(a)
			}
			if err != nil || ps[i] == nil {
				vsched.Fail("connect", "the handshake fails: %v", err)
			}
		}
		ps[0].Start()
		ps[1].Start()
		b := body(9)
		get := new(p2p.GetBlock)
		get.Hash = hash(3)
		for _, u := range use {
			u := u
			i := 0
			if strings.HasSuffix(u, "2") {
				i = 1
			}
			p, c := ps[i], cs[i]
			vsched.Spawn(u, func() {
				switch strings.TrimRight(u, "12") {
				case "block":
					p.SendBlock(b)
				case "ping":
					p.SendPing()
				case "message":
					p.WriteMessage(get)
				case "peers":
					p.SendPeerRequest(7)
				case "headers":
					p.SendHeaderRequest(consensus.Locator{Hashes: []consensus.Hash{hash(1)}})
				case "request":
					p.SendBlockRequest(hash(1))
				case "tx":
					var t consensus.Transaction
					t.Inputs = b.Inputs
					p.SendTransaction(t)
				case "close":
					p.Close()
				case "wait":
					p.WaitForDisconnect()
				case "info":
					info(p)
				case "remote":
					if accepted {
						c.RemoteClose()
					} else {
						c.Feed(psim.Ping(1, 1))
					}
				case "end":
					c.RemoteClose()
				}
			})
		}
		vsched.Settle(100 * vsched.Second)
		vsched.Outcome("quiet")
	}
}

func main() {
	vsched.Racing = true
	psim.Reset = func() {
		secp256k1zkp.VerifReset()
		hook := cuckoo.VerifHook
		cuckoo.VerifReset()
		cuckoo.VerifHook = hook
		consensus.VerifReset()
		chain.VerifReset()
	}
	psim.Main("C31", "A node with two connected peers (or one that is still connecting to three) and every pair of 47 actors: everything the peers may send or do and every use of the pool; two connections outside of a pool with every pair (and some triples) of uses; one to three users of a real chain, and a node with two peers on it, as in C29. Every access of the packages p2p, chain and consensus to members, package variables, elements and shared locals in all schedules within the deviation bound is compared with the other accesses of that memory by vector clocks of the Go memory model.", func(thorough bool) (l []psim.Scenario) {
		add := func(name string, body func(), q ...vsched.Config) {
			l = append(l, psim.Scenario{Name: name, Body: body, Quick: q, Deep: []vsched.Config{psim.Cfg(2, 0), psim.Cfg(2, 1), psim.Tim(1, 0)}, Shards: 1})
		}
		as := actors()
		for i, a := range as {
			add("connecting "+a.name, connecting2(a), psim.Cfg(1, 0), psim.Cfg(1, 1))
			for _, b := range as[i:] {
				if a.name == "stop" && b.name == "stop" {
					continue // its use is once
				}
				if strings.HasPrefix(a.name, "B ") || strings.HasPrefix(b.name, "B ") && !strings.HasPrefix(a.name, "A ") {
					continue // the same with the peers exchanged
				}
				add("serving "+a.name+" | "+b.name, serving([]actor{a, b}), psim.Cfg(1, 0), psim.Cfg(0, 1))
			}
		}
		uses := []string{"block1", "block2", "ping1", "message1", "message2", "peers1", "headers1", "request1", "tx1", "tx2", "close1", "wait1", "info1", "remote1", "end1"}
		for i, a := range uses {
			for j, b := range uses[i:] {
				for _, acc := range []bool{false, true} {
					add(fmt.Sprintf("direct %s %s accepted %v", a, b, acc), direct([]string{a, b}, acc), psim.Cfg(1, 0), psim.Cfg(1, 1))
				}
				for _, c := range uses[i+j:] {
					add(fmt.Sprintf("direct %s %s %s", a, b, c), direct([]string{a, b, c}, false), psim.Cfg(1, 0))
				}
			}
		}
		for _, p := range pure() {
			add(p.name, p.f, psim.Cfg(0, 0), psim.Cfg(0, 1))
		}
		for _, s := range realchain.Scenarios(thorough) {
			s.Name = "chain " + s.Name
			s.Quick = []vsched.Config{psim.Cfg(1, 0)}
			if strings.HasPrefix(s.Name, "chain node") || strings.Count(s.Name, ")(") > 1 {
				s.Quick = []vsched.Config{psim.Cfg(0, 0), psim.Cfg(0, 1)}
			}
			s.Deep = []vsched.Config{psim.Cfg(1, 1), psim.Cfg(2, 0)}
			l = append(l, s)
		}
		return
	})
}

func connecting2(a actor) func() {
	if strings.HasPrefix(a.name, "A ") || strings.HasPrefix(a.name, "B ") {
		// when the connection is there
		f := a.f
		a.f = func(w *world) {
			for i := 0; i < 100; i++ {
				if w.a, w.b = w.n.Open(A), w.n.Open(B); w.a != nil && w.b != nil {
					f(w)
					return
				}
				vsched.SleepFor(vsched.Second / 4)
			}
		}
	}
	return connecting([]actor{a})
}

// info is a user who looks at a connection.
func info(p *p2p.Peer) {
	vsched.RD(&p.Info, "Peer.Info", "a user")
	vsched.RD(&p.Addr, "Peer.Addr", "a user")
}
