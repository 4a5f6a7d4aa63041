// C25: every request gets its one correct answer and keeps the peer alive.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

const (
	A = "10.1.0.1:3414"
	B = "10.1.0.2:3414"
)

func header(height uint64) consensus.BlockHeader {
	h := chain.Testnet4.Header
	h.Height = height
	return h
}

func block(height, td uint64) *consensus.Block {
	b := chain.Testnet4
	b.Header.Height = height
	b.Header.TotalDifficulty = consensus.Difficulty(td)
	return &b
}

func hash(x byte) []byte { return bytes.Repeat([]byte{x}, 32) }

// world is the node and the model of what it should know and answer.
type world struct {
	n         *psim.Node
	known     map[string]bool // addresses, besides the connected peers
	td, h     uint64          // of A
	want      []answer
	wantHdr   int
	wantBlk   int
	wantTx    int
	locators  [][]byte // what the chain was asked
	wantLoc   [][]byte
	gotHdr    []consensus.BlockHeader
	wantHdrs  []uint64
	pool      *psim.Pool
	mempool   bool
	ended     bool // by a message
	connected []string
	busy      bool // the other peer sends as well
}

type answer struct {
	typ  uint8
	body []byte // exact, or
	pong bool
	list []string
	some bool // other addresses may be known meanwhile
}

type msg struct {
	name  string
	frame func() []byte
	model func(w *world)
	end   bool
}

func addrs(l ...string) msg {
	return msg{"addrs" + fmt.Sprint(len(l)), func() []byte { return psim.Addrs(l...) }, func(w *world) {
		for _, a := range l {
			if strings.HasPrefix(a, "224.") || strings.HasSuffix(a, ":0") || a == A || a == B {
				continue
			}
			w.known[a] = true
		}
	}, false}
}

func getAddrs(caps uint32) msg {
	return msg{fmt.Sprintf("getaddrs%d", caps), func() []byte {
		return psim.Frame(psim.TGetPeerAddrs, binary.BigEndian.AppendUint32(nil, caps))
	}, func(w *world) {
		var l []string
		if caps == 0 {
			for a := range w.known {
				l = append(l, a)
			}
		}
		if caps&^7 == 0 {
			l = append(l, w.connected...)
		}
		w.want = append(w.want, answer{typ: psim.TPeerAddrs, list: l, some: caps == 0 && w.busy})
	}, false}
}

func ping(td, h uint64) msg {
	return msg{fmt.Sprintf("ping%d/%d", td, h), func() []byte { return psim.Ping(td, h) }, func(w *world) {
		w.td, w.h = td, h
		w.want = append(w.want, answer{typ: psim.TPong, pong: true})
	}, false}
}

func pong(td, h uint64) msg {
	return msg{fmt.Sprintf("pong%d/%d", td, h), func() []byte { return psim.Pong(td, h) }, func(w *world) { w.td, w.h = td, h }, false}
}

// answers of the chain to a header request: as many as the locator is long
func headersFor(k int) (l []consensus.BlockHeader) {
	for i := 0; i < k; i++ {
		l = append(l, header(uint64(100+10*k+i)))
	}
	return
}

func getHeaders(k int) msg {
	var hs [][]byte
	var loc []byte
	for i := 0; i < k; i++ {
		hs = append(hs, hash(byte(k*16+i)))
		loc = append(loc, hash(byte(k*16+i))...)
	}
	return msg{fmt.Sprintf("getheaders%d", k), func() []byte { return psim.GetHeaders(hs...) }, func(w *world) {
		l := headersFor(k)
		b := binary.BigEndian.AppendUint16(nil, uint16(len(l)))
		for _, x := range l {
			b = append(b, x.Bytes()...)
		}
		w.want = append(w.want, answer{typ: psim.THeaders, body: b})
		w.wantLoc = append(w.wantLoc, loc)
	}, false}
}

func hdrs(l ...uint64) msg {
	return msg{fmt.Sprintf("headers%v", l), func() []byte {
		b := binary.BigEndian.AppendUint16(nil, uint16(len(l)))
		for _, x := range l {
			h := header(x)
			b = append(b, h.Bytes()...)
		}
		return psim.Frame(psim.THeaders, b)
	}, func(w *world) { w.wantHdr++; w.wantHdrs = append(w.wantHdrs, l...) }, false}
}

func hdr(x uint64) msg {
	return msg{fmt.Sprintf("header%d", x), func() []byte {
		h := header(x)
		return psim.Frame(psim.THeader, h.Bytes())
	}, func(w *world) { w.wantHdr++; w.wantHdrs = append(w.wantHdrs, x) }, false}
}

func getBlock(x byte) msg {
	return msg{fmt.Sprintf("getblock%d", x), func() []byte { return psim.Frame(psim.TGetBlock, hash(x)) }, func(w *world) {
		if x < 10 {
			b := block(1000+uint64(x), 1)
			w.want = append(w.want, answer{typ: psim.TBlock, body: b.Bytes()})
		}
	}, false}
}

func blk(h, td uint64) msg {
	return msg{fmt.Sprintf("block%d/%d", td, h), func() []byte { return psim.Frame(psim.TBlock, block(h, td).Bytes()) }, func(w *world) {
		w.wantBlk++
		if w.td < td || w.h < h {
			w.td, w.h = td, h
		}
	}, false}
}

var compact = msg{"compact", func() []byte {
	c := consensus.CompactBlock{Header: header(3)}
	return psim.Frame(psim.TCompactBlock, c.Bytes())
}, func(*world) {}, false}

var getCompact = msg{"getcompact", func() []byte { return psim.Frame(psim.TGetCompactBlock, hash(1)) }, func(*world) {}, false}

var tx = msg{"tx", func() []byte { return psim.Frame(psim.TTransaction, make([]byte, 56)) }, func(w *world) {
	if w.mempool {
		w.wantTx++
	}
}, false}

func good() []msg {
	return []msg{ping(7, 9), ping(0, 0), ping(1<<63+5, 1<<40), pong(11, 12), getAddrs(0), getAddrs(7), getAddrs(8), addrs("10.2.0.1:3414", "10.2.0.2:65535"),
		addrs("224.0.0.1:3414", "10.2.0.3:0", A, B, "[2001:db8::1]:40000", "10.2.0.1:3414"), addrs(),
		getHeaders(0), getHeaders(2), hdr(41), hdr(99), hdrs(42, 43), hdrs(), getBlock(1), getBlock(99), blk(3, 40), blk(8, 2), compact, getCompact, tx}
}

func ending(name string, f []byte) msg {
	return msg{name, func() []byte { return f }, func(w *world) { w.ended = true }, true}
}

func cut(m msg) msg {
	f := m.frame()
	n := binary.BigEndian.Uint64(f[3:])
	g := append([]byte(nil), f[:len(f)-1]...)
	binary.BigEndian.PutUint64(g[3:], n-1)
	return ending("cut "+m.name, g)
}

func bad() (l []msg) {
	for _, m := range []msg{ping(7, 9), pong(1, 1), getAddrs(0), addrs("10.2.0.9:3414"), getHeaders(2), hdr(5), hdrs(5), getBlock(1), blk(3, 40), compact, tx} {
		l = append(l, cut(m))
	}
	one := func(t uint8, n uint64) []byte {
		return binary.BigEndian.AppendUint64([]byte{0x54, 0x34, t}, n)
	}
	l = append(l, ending("magic", append([]byte{0x54, 0x33}, psim.Ping(1, 1)[2:]...)),
		ending("long", append(one(psim.TPing, 20000001), make([]byte, 16)...)),
		ending("longest", append(one(psim.TPing, 1<<64-1), make([]byte, 16)...)),
		ending("negative", append(one(psim.TGetBlock, 1<<63), make([]byte, 32)...)),
		ending("hand", psim.Frame(psim.THand, make([]byte, 60))),
		ending("shake", psim.Good().Frame()),
		ending("stem", psim.Frame(psim.TStemTransaction, []byte{1})),
		ending("type 99", psim.Frame(99, nil)),
		ending("type 255", psim.Frame(255, make([]byte, 300))),
		ending("addrs 257", psim.Frame(psim.TPeerAddrs, append([]byte{0, 0, 1, 1}, make([]byte, 257*7)...))),
		ending("headers 513", psim.Frame(psim.THeaders, append([]byte{2, 1}, make([]byte, 4000)...))),
		ending("locators 15", psim.Frame(psim.TGetHeaders, append([]byte{15}, make([]byte, 15*32)...))))
	return
}

type story struct {
	seq     []msg
	chunks  string // whole, each, bytes, split, odd
	grow    int    // of the chain, meanwhile
	mempool bool
	other   []msg // of B, at the same time
}

func (s story) name() string {
	var l, o []string
	for _, m := range s.seq {
		l = append(l, m.name)
	}
	for _, m := range s.other {
		o = append(o, m.name)
	}
	return fmt.Sprintf("%s %s grow %d mempool %v other [%s]", strings.Join(l, ","), s.chunks, s.grow, s.mempool, strings.Join(o, ","))
}

func (s story) body() {
	vsched.Freeze(true)
	w := &world{known: map[string]bool{}, mempool: s.mempool, pool: &psim.Pool{}, connected: []string{A, B}, busy: len(s.other) > 0, td: 1}
	o := psim.Opt{Addrs: []string{A, B}, Limit: 2}
	if s.mempool {
		o.Mempool = w.pool
	}
	w.n = psim.New(o)
	n := w.n
	n.Chain.Headers = func(loc consensus.Locator) []consensus.BlockHeader {
		var b []byte
		for _, h := range loc.Hashes {
			b = append(b, h...)
		}
		w.locators = append(w.locators, b)
		return headersFor(len(loc.Hashes))
	}
	n.Chain.BadHdr = func(l []consensus.BlockHeader) error {
		w.gotHdr = append(w.gotHdr, l...)
		if len(l) == 1 && l[0].Height == 99 {
			return errors.New("unknown parent")
		}
		return nil
	}
	n.Chain.Blocks[string(hash(1))] = block(1001, 1)
	n.Start()
	if !psim.Until(10*vsched.Second, func() bool {
		return n.Open(A) != nil && n.Open(B) != nil && len(psim.After(n.Open(A))) >= 2 && len(psim.After(n.Open(B))) >= 2
	}) {
		vsched.Fail("connect", "the peers are not connected and greeted")
	}
	a, b := n.Open(A), n.Open(B)
	greeting(a)
	greeting(b)
	var stream []byte
	var frames [][]byte
	live := true
	for _, m := range s.seq {
		f := m.frame()
		stream = append(stream, f...)
		frames = append(frames, f)
		if live {
			m.model(w)
		}
		if m.end {
			live = false
		}
	}
	var parts [][]byte
	switch s.chunks {
	case "whole":
		parts = [][]byte{stream}
	case "each":
		parts = frames
	case "bytes":
		for i := range stream {
			parts = append(parts, stream[i:i+1])
		}
	case "split": // within headers and bodies
		for _, f := range frames {
			k := len(f) / 2
			parts = append(parts, f[:5], f[5:k+3], f[k+3:])
		}
	case "odd":
		for len(stream) > 13 {
			parts = append(parts, stream[:13])
			stream = stream[13:]
		}
		parts = append(parts, stream)
	}
	vsched.Freeze(false)
	vsched.Spawn("A", func() {
		for _, p := range parts {
			a.Feed(p)
		}
	})
	wb := &world{known: w.known, mempool: s.mempool, connected: w.connected, busy: true}
	if len(s.other) > 0 {
		vsched.Spawn("B", func() {
			for _, m := range s.other {
				b.Feed(m.frame())
			}
		})
		for _, m := range s.other {
			m.model(wb)
		}
	}
	if s.grow > 0 {
		vsched.Spawn("grow", func() {
			for i := 1; i <= s.grow; i++ {
				n.Chain.Grow(5+uint64(i), 50+10*uint64(i))
			}
		})
	}
	vsched.Settle(900 * vsched.Millisecond)
	vsched.Freeze(true)
	w.verify("A", a, w.want, live)
	wb.n = n
	wb.verify("B", b, wb.want, true)
	if live {
		for _, x := range []struct {
			name string
			v    uint64
		}{{"TotalDifficulty", w.td}, {"Height", w.h}} {
			if v, known := n.Member(A, x.name); known && v != x.v {
				vsched.Fail("info", "the known %s of the peer is %d, it is %d", x.name, v, x.v)
			}
		}
		// it is alive
		ping(77, 88).model(w)
		a.Feed(psim.Ping(77, 88))
		vsched.Settle(50 * vsched.Millisecond)
		w.verify("A", a, w.want, true)
		if len(psim.Of(psim.After(a), psim.TPeerAddrs))+len(psim.Of(psim.After(a), psim.TBlock)) > len(w.want) {
			vsched.Fail("extra", "more answers than requests")
		}
	} else {
		if n.Open(A) == a {
			vsched.Fail("not ended", "the connection is not closed after the bad message")
		}
		if bn, known := n.Banned(B); known && bn {
			vsched.Fail("ban", "the other peer is banned")
		}
	}
	// the other one always is
	ping(5, 6).model(wb)
	b.Feed(psim.Ping(5, 6))
	vsched.Settle(50 * vsched.Millisecond)
	wb.verify("B", b, wb.want, true)
	if b.Closed() {
		vsched.Fail("other", "the connection of the other peer is closed")
	}
	w.effects(s, live)
	vsched.Outcome(fmt.Sprintf("answers %d closed %v", len(psim.After(a)), a.Closed()))
}

func greeting(c *vnet.TCPConn) {
	l := psim.After(c)
	if len(l) != 2 || len(psim.Of(l, psim.TPing)) != 1 || len(psim.Of(l, psim.TGetPeerAddrs)) != 1 {
		vsched.Fail("greeting", "a new connection gets %v, not a ping and an address request", l)
	}
}

func (w *world) effects(s story, live bool) {
	n := w.n
	other := len(s.other)
	if live && other == 0 {
		if n.Chain.NHdrs != w.wantHdr {
			vsched.Fail("headers", "the chain got %d header lists, %d were sent", n.Chain.NHdrs, w.wantHdr)
		}
		if len(w.gotHdr) != len(w.wantHdrs) {
			vsched.Fail("headers", "the chain got %d headers, %d were sent", len(w.gotHdr), len(w.wantHdrs))
		}
		for i := range w.gotHdr {
			if w.gotHdr[i].Height != w.wantHdrs[i] {
				vsched.Fail("headers", "the chain got other headers than were sent")
			}
		}
		if n.Chain.NBlocks != w.wantBlk {
			vsched.Fail("blocks", "the chain got %d blocks, %d were sent", n.Chain.NBlocks, w.wantBlk)
		}
		if w.pool.N != w.wantTx {
			vsched.Fail("txs", "the mempool got %d transactions, %d were sent", w.pool.N, w.wantTx)
		}
		if len(w.locators) != len(w.wantLoc) {
			vsched.Fail("locator", "the chain was asked %d times for headers, %d requests came", len(w.locators), len(w.wantLoc))
		}
		for i := range w.wantLoc {
			if !bytes.Equal(w.locators[i], w.wantLoc[i]) {
				vsched.Fail("locator", "the chain was asked with another locator than was sent")
			}
		}
	}
	list := n.Listed(0)
	for a := range w.known {
		if !psim.Has(list, a) && !n.Known(a) {
			vsched.Fail("gossip", "the received address %s is not known", a)
		}
	}
	for _, a := range list {
		if !w.known[a] && a != A && a != B {
			vsched.Fail("gossip", "%s is handed out, but nobody sent it", a)
		}
	}
	if bn, known := n.Banned(A); known && bn {
		vsched.Fail("ban", "the peer is banned")
	}
}

// verify compares the answers with the model: all of them in order, or, if
// the connection was ended by a message, a prefix.
func (w *world) verify(who string, c *vnet.TCPConn, want []answer, all bool) {
	var got []psim.Msg
	for i, m := range psim.After(c) {
		if i < 2 {
			continue
		}
		if m.Type == psim.TPing || m.Type == psim.TGetPeerAddrs {
			vsched.Fail("unasked", "an unexpected message of type %d to %s", m.Type, who)
		}
		got = append(got, m)
	}
	if len(got) > len(want) || all && len(got) < len(want) {
		vsched.Fail("answers "+who, "%d answers to %s, expected %d", len(got), who, len(want))
	}
	if all && c.Closed() {
		vsched.Fail("closed "+who, "the connection to %s is closed", who)
	}
	last := 0
	for i, m := range got {
		a := want[i]
		if m.Type != a.typ {
			vsched.Fail("type "+who, "answer %d to %s is of type %d, expected %d", i, who, m.Type, a.typ)
		}
		switch {
		case a.pong:
			if len(m.Body) != 16 {
				vsched.Fail("pong", "a pong of %d bytes", len(m.Body))
			}
			td, h := binary.BigEndian.Uint64(m.Body), binary.BigEndian.Uint64(m.Body[8:])
			for last < len(w.n.Chain.Seen) && w.n.Chain.Seen[last] != [2]uint64{h, td} {
				last++
			}
			if last == len(w.n.Chain.Seen) {
				vsched.Fail("pong", "the pong to %s says height %d and total difficulty %d, which the chain never had together (or not any more)", who, h, td)
			}
		case a.body != nil:
			if !bytes.Equal(a.body, m.Body) {
				vsched.Fail("body", "answer %d (type %d) to %s is not what was asked for", i, m.Type, who)
			}
		default:
			l, ok := psim.ParseAddrs(m.Body)
			if !ok {
				vsched.Fail("list", "the address list cannot be read")
			}
			seen := map[string]bool{}
			for _, x := range l {
				if seen[x] || !psim.Has(a.list, x) && !(a.some && w.known[x]) {
					vsched.Fail("list", "%s gets %s, which is there twice or does not match", who, x)
				}
				seen[x] = true
			}
			for _, x := range a.list {
				if !seen[x] && !(a.some && w.known[x]) {
					vsched.Fail("list", "%s does not get %s", who, x)
				}
			}
		}
	}
}

func main() {
	psim.Main("C25", "All sequences of up to three messages of an alphabet of 23 well-formed and 23 bad ones are sent by a peer of a running node with two peers, in five chunkings of the stream; the answers, the calls on the chain and the mempool, what is known about the peer and the addresses are compared with a model. Schedules within the deviation bound of the real code are run, also while the chain grows and the other peer asks.", func(thorough bool) (l []psim.Scenario) {
		add := func(s story, q ...vsched.Config) {
			l = append(l, psim.Scenario{Name: s.name(), Body: s.body, Quick: q, Shards: 1,
				Deep: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0)}})
		}
		g, e := good(), bad()
		all := append(append([]msg(nil), g...), e...)
		for _, x := range all {
			for _, c := range []string{"whole", "bytes", "split", "odd"} {
				add(story{seq: []msg{x}, chunks: c}, psim.Cfg(0, 0), psim.Cfg(0, 1))
			}
			add(story{seq: []msg{x}, chunks: "each"}, psim.Cfg(4, 0), psim.Cfg(3, 1), psim.Pts(3, 0), psim.Pts(2, 1), psim.Tim(2, 0))
			add(story{seq: []msg{x}, chunks: "each", mempool: true}, psim.Cfg(2, 0))
			for _, y := range all {
				for _, c := range []string{"whole", "split", "odd"} {
					add(story{seq: []msg{x, y}, chunks: c}, psim.Cfg(0, 0))
				}
				add(story{seq: []msg{x, y}, chunks: "each"}, psim.Cfg(2, 0), psim.Cfg(1, 1))
			}
			if !x.end {
				for _, y := range g {
					add(story{seq: []msg{x}, other: []msg{y}, chunks: "each"}, psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0))
				}
			} else {
				for _, y := range []msg{ping(3, 3), getHeaders(2), getBlock(1)} {
					add(story{seq: []msg{x}, other: []msg{y}, chunks: "each"}, psim.Cfg(1, 0))
				}
			}
		}
		p := ping(7, 9)
		add(story{seq: []msg{p}, chunks: "each", grow: 1}, psim.Cfg(5, 0), psim.Cfg(4, 1), psim.Pts(3, 0))
		add(story{seq: []msg{p}, chunks: "each", grow: 2}, psim.Cfg(4, 0), psim.Cfg(3, 1))
		add(story{seq: []msg{p, p}, chunks: "each", grow: 2}, psim.Cfg(4, 0), psim.Pts(2, 0))
		add(story{seq: []msg{p}, other: []msg{p}, chunks: "each", grow: 1}, psim.Cfg(3, 0), psim.Pts(2, 0))
		small := append(append([]msg(nil), g...), e[0], e[12], e[14])
		if thorough {
			small = all
		}
		for _, x := range small {
			for _, y := range small {
				for _, z := range small {
					if x.end || y.end && z.end {
						continue
					}
					add(story{seq: []msg{x, y, z}, chunks: "whole"}, psim.Cfg(0, 0))
				}
			}
		}
		return
	})
}
