// C27: only compatible peers of the same chain get through the handshake.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/p2p"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

const addr = "10.1.0.1:3414"

// hand is the first message.
type hand struct {
	version, caps uint32
	nonce, td     uint64
	from, to      []byte
	agent         string
	agentLen      uint64
	genesis       []byte
}

var v4 = []byte{0, 10, 0, 0, 2, 0x0d, 0x56}
var v6 = []byte{1, 0x20, 1, 0x0d, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0x0d, 0x56}

func goodHand() hand {
	return hand{1, 7, 0x1122334455667788, 1, v4, v4, "peer", 4, append([]byte(nil), chain.Testnet4.Hash()...)}
}

func (h hand) body() []byte {
	b := binary.BigEndian.AppendUint32(nil, h.version)
	b = binary.BigEndian.AppendUint32(b, h.caps)
	b = binary.BigEndian.AppendUint64(b, h.nonce)
	b = binary.BigEndian.AppendUint64(b, h.td)
	b = append(append(b, h.from...), h.to...)
	b = binary.BigEndian.AppendUint64(b, h.agentLen)
	return append(append(b, h.agent...), h.genesis...)
}

// side is one end: the node dials, or it accepts.
type side struct {
	accept bool
	typ    uint8
	// frame of a good message with these values
	good func() []byte
}

var sides = []side{
	{false, psim.TShake, func() []byte { return psim.Good().Frame() }},
	{true, psim.THand, func() []byte { return psim.Frame(psim.THand, goodHand().body()) }},
}

// result of a handshake.
type result struct {
	p    *p2p.Peer
	err  error
	c    *vnet.TCPConn
	done bool
	took int64
}

// run performs one handshake with a remote side that behaves like plan.
func (s side) run(plan vnet.Plan, steps func(c *vnet.TCPConn)) *result {
	n := psim.New(psim.Opt{Addrs: []string{addr}, Plan: func(string, int) vnet.Plan { return plan }})
	r := &result{}
	begin := vsched.Now()
	var t *vsched.Thread
	if s.accept {
		r.c = vnet.NewConn(addr, plan)
		t = vsched.Spawn("accept", func() { r.p, r.err = p2p.AcceptNewPeer(r.c); r.done, r.took = true, vsched.Now()-begin })
	} else {
		t = vsched.Spawn("connect", func() { r.p, r.err = p2p.NewPeer(n.S, addr); r.done, r.took = true, vsched.Now()-begin })
	}
	if steps != nil {
		vsched.Spawn("remote", func() {
			for !s.accept && n.Conn(addr) == nil {
				vsched.SleepFor(vsched.Millisecond)
			}
			if r.c == nil {
				r.c = n.Conn(addr)
			}
			steps(r.c)
		})
	}
	vsched.Settle(3000 * vsched.Second)
	if !t.Done() {
		vsched.Fail("stuck", "the handshake does not end: %s", t.Waiting())
	}
	if !s.accept {
		r.c = n.Conn(addr)
	}
	if r.err != nil {
		if r.c != nil && !r.c.Closed() {
			vsched.Fail("open", "the handshake fails (%v), but the connection is not closed", r.err)
		}
	} else {
		if r.p == nil || r.c.Closed() {
			vsched.Fail("closed", "the handshake succeeds, but there is no connection")
		}
	}
	if l := vsched.Live(); len(l) > 0 {
		vsched.Fail("leak", "goroutines are left after the handshake: %v", l)
	}
	l, rest, err := psim.Frames(r.c.Out)
	if !r.c.Failed && (err != nil || len(rest) > 0) {
		vsched.Fail("frames", "the node did not write whole frames")
	}
	if s.accept {
		if r.err == nil && (len(l) != 1 || l[0].Type != psim.TShake) {
			vsched.Fail("wrote", "the accepting side did not write one shake")
		}
		if r.err != nil && !r.c.Failed && len(l) > 0 {
			vsched.Fail("wrote", "a rejected peer gets an answer that lets it through")
		}
	} else if !r.c.Failed && plan.Window == 0 && (len(l) != 1 || l[0].Type != psim.THand) {
		vsched.Fail("wrote", "the dialling side did not write one hand")
	}
	for _, m := range l {
		if g := chain.Testnet4.Hash(); len(m.Body) < 60 || binary.BigEndian.Uint32(m.Body) != 1 || !bytes.HasSuffix(m.Body, g) {
			vsched.Fail("content", "the node's own message has a wrong version or genesis")
		}
	}
	return r
}

func (r *result) expect(ok bool) {
	if ok && r.err != nil {
		vsched.Fail("refused", "the handshake fails: %v", r.err)
	}
	if !ok && r.err == nil {
		vsched.Fail("accepted", "the handshake succeeds")
	}
}

func (r *result) info(version, caps uint32, td uint64, agent string) {
	i := r.p.Info
	if i.Version != version || uint32(i.Capabilities) != caps || uint64(i.TotalDifficulty) != td || i.UserAgent != agent {
		vsched.Fail("info", "the peer is known as version %d, capabilities %d, total difficulty %d, agent %d bytes; it sent %d, %d, %d, %d bytes",
			i.Version, i.Capabilities, i.TotalDifficulty, len(i.UserAgent), version, caps, td, len(agent))
	}
}

func feed(l ...[]byte) vnet.Plan { return vnet.Plan{In: l} }

func main() {
	psim.Main("C27", "For the dialling and the accepting side every value of an enumeration of the fields of the other side's message (all single-bit changes of version, genesis, magic and type; boundaries of the others; own nonces), every truncation with an end, a stall and a reset, every two-way chunking, every read and write failure, and handshakes of two nodes through every chunking; single runs, plus schedules within the deviation bound where there is concurrency.", func(thorough bool) (l []psim.Scenario) {
		add := func(name string, body func(), q ...vsched.Config) {
			if len(q) == 0 {
				q = []vsched.Config{psim.Cfg(0, 0)}
			}
			l = append(l, psim.Scenario{Name: name, Body: body, Quick: q, Deep: []vsched.Config{psim.Cfg(2, 0), psim.Cfg(2, 1), psim.Tim(1, 0)}})
		}
		for _, s := range sides {
			s := s
			who := "dial "
			if s.accept {
				who = "accept "
			}
			// a value of the fields
			try := func(name string, h hand, ok bool) {
				add(who+name, func() {
					f := psim.Frame(psim.THand, h.body())
					if !s.accept {
						b := binary.BigEndian.AppendUint32(nil, h.version)
						b = binary.BigEndian.AppendUint32(b, h.caps)
						b = binary.BigEndian.AppendUint64(b, h.td)
						b = binary.BigEndian.AppendUint64(b, h.agentLen)
						f = psim.Frame(psim.TShake, append(append(b, h.agent...), h.genesis...))
					}
					p := feed(f)
					p.EOF = true
					r := s.run(p, nil)
					r.expect(ok)
					if ok {
						r.info(h.version, h.caps, h.td, h.agent)
					}
				})
			}
			try("good", goodHand(), true)
			for i := 0; i < 32; i++ {
				h := goodHand()
				h.version ^= 1 << i
				try(fmt.Sprintf("version %d", h.version), h, false)
				h = goodHand()
				h.caps = 1 << i
				try(fmt.Sprintf("caps %d", h.caps), h, true)
			}
			for _, v := range []uint32{2, 3, 1<<32 - 1} {
				h := goodHand()
				h.version = v
				try(fmt.Sprintf("version %d.", v), h, false)
			}
			for _, c := range []uint32{0, 1<<32 - 1} {
				h := goodHand()
				h.caps = c
				try(fmt.Sprintf("caps %d", c), h, true)
			}
			for i := 0; i < 256; i++ {
				h := goodHand()
				h.genesis[i/8] ^= 1 << (i % 8)
				try(fmt.Sprintf("genesis bit %d", i), h, false)
			}
			for _, b := range []byte{0, 255} {
				h := goodHand()
				h.genesis = bytes.Repeat([]byte{b}, 32)
				try(fmt.Sprintf("genesis of %d", b), h, false)
			}
			for n := 0; n < 32; n++ {
				h := goodHand()
				h.genesis = h.genesis[:n]
				try(fmt.Sprintf("genesis of length %d", n), h, false)
			}
			for i := 0; i < 64; i++ {
				h := goodHand()
				h.td = 1 << i
				try(fmt.Sprintf("td %d", h.td), h, true)
				h = goodHand()
				h.nonce = 1 << i
				try(fmt.Sprintf("nonce %d", h.nonce), h, true)
			}
			for _, n := range []uint64{0, 1<<64 - 1} {
				h := goodHand()
				h.td, h.nonce = n, n
				try(fmt.Sprintf("td and nonce %d", n), h, true)
			}
			for _, n := range []int{0, 1, 2, 255, 256, 4000, 5000, 70000} {
				h := goodHand()
				h.agent = string(bytes.Repeat([]byte("a"), n))
				h.agentLen = uint64(n)
				try(fmt.Sprintf("agent of %d", n), h, true)
			}
			for _, n := range []uint64{0, 3, 5, 36, 37, 255, 20000000, 20000001, 1 << 32, 1 << 63, 1<<64 - 1} {
				h := goodHand()
				h.agentLen = n
				// a shorter agent shifts the genesis
				try(fmt.Sprintf("agent of length %d", n), h, false)
			}
			h := goodHand()
			h.agent, h.agentLen = "\x00\xff\xfe\nä", 6
			try("agent of odd bytes", h, true)
			if s.accept {
				for i, from := range [][]byte{v4, v6} {
					for k, to := range [][]byte{v4, v6} {
						h := goodHand()
						h.from, h.to = from, to
						try(fmt.Sprintf("addresses %d %d", i, k), h, true)
					}
				}
				for _, flag := range []byte{2, 3, 127, 128, 255} {
					for k := 0; k < 2; k++ {
						h := goodHand()
						bad := append([]byte{flag}, v4[1:]...)
						if k == 0 {
							h.from = bad
						} else {
							h.to = bad
						}
						try(fmt.Sprintf("address %d of kind %d", k, flag), h, false)
					}
				}
			}
			// the frame
			f := s.good()
			frame := func(name string, g []byte) {
				add(who+name, func() {
					p := feed(g)
					p.EOF = true
					s.run(p, nil).expect(false)
				})
			}
			for i := 0; i < 24; i++ {
				g := append([]byte(nil), f...)
				g[i/8] ^= 1 << (i % 8)
				frame(fmt.Sprintf("frame bit %d", i), g)
			}
			for t := 0; t < 256; t++ {
				if uint8(t) != s.typ {
					g := append([]byte(nil), f...)
					g[2] = byte(t)
					frame(fmt.Sprintf("type %d", t), g)
				}
			}
			for _, n := range []uint64{0, 1, uint64(len(f)) - 12, 20000001, 1 << 32, 1 << 63, 1<<64 - 1} {
				g := append([]byte(nil), f...)
				binary.BigEndian.PutUint64(g[3:], n)
				frame(fmt.Sprintf("length %d", n), g)
			}
			frame("nothing", nil)
			// every truncation
			for n := 0; n < len(f); n++ {
				n := n
				add(fmt.Sprintf("%scut at %d", who, n), func() { p := feed(f[:n]); p.EOF = true; s.run(p, nil).expect(false) })
				add(fmt.Sprintf("%sstall at %d", who, n), func() {
					r := s.run(feed(f[:n]), nil)
					r.expect(false)
					if r.took > 600*vsched.Second {
						vsched.Fail("late", "a stalling handshake takes %d s", r.took/vsched.Second)
					}
				})
				add(fmt.Sprintf("%sreset at %d", who, n), func() { s.run(feed(f[:n]), func(c *vnet.TCPConn) { c.RemoteReset() }).expect(false) })
				if n > 0 {
					add(fmt.Sprintf("%ssplit at %d", who, n), func() {
						r := s.run(feed(f[:n], f[n:]), nil)
						r.expect(true)
						r.info(1, 7, 1, "peer")
					})
				}
			}
			for _, k := range []int{1, 2, 3, 7, 11} {
				k := k
				add(fmt.Sprintf("%schunks of %d", who, k), func() {
					var parts [][]byte
					for b := f; len(b) > 0; {
						m := k
						if m > len(b) {
							m = len(b)
						}
						parts, b = append(parts, b[:m]), b[m:]
					}
					r := s.run(feed(parts...), nil)
					r.expect(true)
					r.info(1, 7, 1, "peer")
				})
			}
			// slowly: within the time it must succeed
			add(who+"slow", func() {
				r := s.run(vnet.Plan{}, func(c *vnet.TCPConn) {
					for i := range f {
						c.Feed(f[i : i+1])
						vsched.SleepFor(vsched.Millisecond)
					}
				})
				r.expect(true)
			})
			add(who+"very slow", func() { // either way
				s.run(vnet.Plan{}, func(c *vnet.TCPConn) {
					for i := range f {
						c.Feed(f[i : i+1])
						vsched.SleepFor(10 * vsched.Second)
					}
				})
			})
			// so slowly that it never ends
			for _, d := range []int64{1, 10, 20} {
				d := d
				add(fmt.Sprintf("%sdrips every %d s", who, d), func() {
					h := goodHand()
					h.agentLen = 15000000
					f := psim.Frame(psim.THand, h.body())
					if !s.accept {
						b := append(append(f[11:19:19], h.body()[16:24]...), binary.BigEndian.AppendUint64(nil, h.agentLen)...)
						f = psim.Frame(psim.TShake, b)
					}
					binary.BigEndian.PutUint64(f[3:], h.agentLen+200)
					r := s.run(vnet.Plan{In: [][]byte{f}, Drip: d * vsched.Second}, nil)
					r.expect(false)
				})
			}
			// after the handshake the connection has no deadline left
			add(who+"deadline", func() {
				r := s.run(feed(f), nil)
				r.expect(true)
				r.p.Start()
				vsched.Settle(100000 * vsched.Second)
				if r.c.Closed() {
					vsched.Fail("deadline", "an idle connection is closed after the handshake")
				}
				m := new(p2p.Ping)
				n := len(r.c.Out)
				vsched.Spawn("send", func() { r.p.WriteMessage(m) })
				vsched.Settle(10 * vsched.Second)
				if len(r.c.Out) == n {
					vsched.Fail("deadline", "nothing can be sent after the handshake")
				}
				r.p.Close()
			})
			// faults
			add(who+"read faults", func() {
				p := feed(f[:3], f[3:20], f[20:])
				p.ReadFault = true
				r := s.run(p, nil)
				r.expect(!r.c.Failed)
			}, psim.Cfg(1, 0))
			add(who+"write faults", func() {
				p := feed(f)
				p.WriteFault, p.Soft = true, true
				r := s.run(p, nil)
				r.expect(!r.c.Failed)
			}, psim.Cfg(1, 0))
			add(who+"does not read", func() {
				p := feed(f)
				p.Window = 1
				r := s.run(p, nil)
				r.expect(false)
			})
			// a message that follows is not lost
			add(who+"more", func() {
				r := s.run(feed(append(append([]byte(nil), f...), psim.Ping(9, 9)...)), nil)
				r.expect(true)
				if r.c.Left() != len(psim.Ping(9, 9)) && !s.accept {
					r.p.Start()
					vsched.Settle(10 * vsched.Second)
					if m, _, _ := psim.Frames(r.c.Out); len(psim.Of(m, psim.TPong)) != 1 {
						vsched.Fail("lost", "what follows the handshake is lost")
					}
				}
			})
		}
		add("dial refused", func() { refused(vnet.Plan{Refuse: true}) })
		add("dial hangs", func() { refused(vnet.Plan{Hang: true}) })
		add("dial nowhere", func() {
			n := psim.New(psim.Opt{})
			for _, a := range []string{"", "nowhere", "10.1.0.1", "10.1.0.1:x", "no.such.host:3414", "10.1.0.1:70000"} {
				if p, err := p2p.NewPeer(n.S, a); err == nil || p != nil {
					vsched.Fail("nowhere", "connecting to %q succeeds", a)
				}
			}
		})
		// own nonces
		add("own nonces", ownNonces)
		for _, k := range []int{0, 1, 5, 11, 19, 64} {
			k := k
			add(fmt.Sprintf("two nodes, chunks of %d", k), func() { twoNodes(k, true) }, psim.Cfg(2, 0), psim.Cfg(1, 1))
			add(fmt.Sprintf("a node with itself, chunks of %d", k), func() { twoNodes(k, false) }, psim.Cfg(2, 0), psim.Cfg(1, 1))
		}
		add("many at once", many, psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0))
		return
	})
}

func refused(p vnet.Plan) {
	n := psim.New(psim.Opt{Plan: func(string, int) vnet.Plan { return p }})
	var done bool
	t := vsched.Spawn("connect", func() {
		x, err := p2p.NewPeer(n.S, addr)
		done = err != nil && x == nil
	})
	vsched.Settle(1000 * vsched.Second)
	if !t.Done() || !done {
		vsched.Fail("refused", "connecting to a peer that cannot be reached does not fail")
	}
}

// nonceOf reads the nonce of a hand.
func nonceOf(out []byte) (uint64, bool) {
	l, _, _ := psim.Frames(out)
	if len(l) != 1 || l[0].Type != psim.THand || len(l[0].Body) < 16 {
		return 0, false
	}
	return binary.BigEndian.Uint64(l[0].Body[8:]), true
}

// ownNonces sends back what the node has sent to others, at once and later.
func ownNonces() {
	n := psim.New(psim.Opt{Plan: func(string, int) vnet.Plan { return psim.Greet() }})
	var sent []uint64
	try := func(x uint64, when string) {
		h := goodHand()
		h.nonce = x
		c := vnet.NewConn("10.7.0.1:999", vnet.Plan{In: [][]byte{psim.Frame(psim.THand, h.body())}})
		if _, err := p2p.AcceptNewPeer(c); err == nil {
			vsched.Fail("self", "a connection to itself is accepted (%s)", when)
		}
		if !c.Closed() {
			vsched.Fail("self", "a connection to itself stays open")
		}
	}
	for i := 0; i < 101; i++ {
		if _, err := p2p.NewPeer(n.S, addr); err != nil {
			vsched.Fail("connect", "the handshake fails: %v", err)
		}
		c := n.Net.Conns[len(n.Net.Conns)-1]
		x, ok := nonceOf(c.Out)
		if !ok {
			vsched.Fail("hand", "no hand was sent")
		}
		c.Close()
		try(x, "at once")
		n.Net.Conns = nil
		sent = append(sent, x)
		for k := i - 3; k < i; k++ {
			if k >= 0 {
				try(sent[k], "a little later")
			}
		}
		n.Net.Conns = nil
	}
	for _, x := range sent[len(sent)-20:] {
		try(x, "later")
	}
	n.Net.Conns = nil
}

// twoNodes lets one node connect to another one; the nonces of both are in
// this process, so one is changed on the way unless it is to itself.
func twoNodes(chunk int, other bool) {
	var in *vnet.TCPConn
	var buf []byte
	forward := func(to *vnet.TCPConn, b []byte) {
		for len(b) > 0 {
			k := chunk
			if k == 0 || k > len(b) {
				k = len(b)
			}
			to.FeedNow(b[:k])
			b = b[k:]
		}
	}
	var out *vnet.TCPConn
	n := psim.New(psim.Opt{})
	plan := vnet.Plan{}
	plan.OnWrite = func(c *vnet.TCPConn, b []byte) {
		out = c
		buf = append(buf, b...)
		l, _, _ := psim.Frames(buf)
		if len(l) == 1 {
			x := append([]byte(nil), buf...)
			if other {
				x[11+8] ^= 0x55
				x[11+15] ^= 0x33
			}
			forward(in, x)
		}
	}
	n.Net.OnDial = func(string, int) vnet.Plan { return plan }
	in = vnet.NewConn("10.0.0.1:40001", vnet.Plan{OnWrite: func(c *vnet.TCPConn, b []byte) { forward(out, b) }})
	n.Net.OnClose = func(c *vnet.TCPConn) {
		if c == in && out != nil {
			out.EOFNow()
		}
		if c == out {
			in.EOFNow()
		}
	}
	var p, q *p2p.Peer
	var perr, qerr error
	t := vsched.Spawn("connect", func() { p, perr = p2p.NewPeer(n.S, addr) })
	u := vsched.Spawn("accept", func() { q, qerr = p2p.AcceptNewPeer(in) })
	vsched.Settle(1000 * vsched.Second)
	if !t.Done() || !u.Done() {
		vsched.Fail("stuck", "the handshake does not end: %s %s", t.Waiting(), u.Waiting())
	}
	if !other {
		if qerr == nil || !in.Closed() {
			vsched.Fail("self", "the node connects to itself")
		}
		if perr == nil || !out.Closed() {
			vsched.Fail("self", "the node is connected to itself")
		}
		return
	}
	if perr != nil || qerr != nil || p == nil || q == nil || in.Closed() || out.Closed() {
		vsched.Fail("two", "two nodes cannot complete the handshake: %v, %v", perr, qerr)
	}
	l, _, _ := psim.Frames(out.Out)
	m, _, _ := psim.Frames(in.Out)
	b, s := l[0].Body, m[0].Body
	if uint32(q.Info.Capabilities) != binary.BigEndian.Uint32(b[4:]) || uint64(q.Info.TotalDifficulty) != binary.BigEndian.Uint64(b[16:]) ||
		!bytes.Contains(b, append(binary.BigEndian.AppendUint64(nil, uint64(len(q.Info.UserAgent))), q.Info.UserAgent...)) {
		vsched.Fail("info", "the accepting side has not what the other one sent")
	}
	if uint32(p.Info.Capabilities) != binary.BigEndian.Uint32(s[4:]) || uint64(p.Info.TotalDifficulty) != binary.BigEndian.Uint64(s[8:]) ||
		!bytes.Contains(s, append(binary.BigEndian.AppendUint64(nil, uint64(len(p.Info.UserAgent))), p.Info.UserAgent...)) {
		vsched.Fail("info", "the dialling side has not what the other one sent")
	}
	// and messages get through
	p.Start()
	vsched.Spawn("send", func() { q.Start(); q.SendPing() })
	vsched.Settle(vsched.Millisecond)
	_ = n
}

// many handshakes at once, of both kinds; each is independent.
func many() {
	n := psim.New(psim.Opt{Plan: func(a string, k int) vnet.Plan {
		s := psim.Good()
		if a == "10.1.0.2:3414" {
			s.Version = 9
		}
		return vnet.Plan{In: [][]byte{s.Frame()}}
	}})
	res := map[string]error{}
	for _, a := range []string{"10.1.0.1:3414", "10.1.0.2:3414"} {
		a := a
		vsched.Spawn("connect "+a, func() { _, err := p2p.NewPeer(n.S, a); res[a] = err })
	}
	for i := 0; i < 2; i++ {
		i := i
		h := goodHand()
		if i == 1 {
			h.genesis[3] ^= 1
		}
		c := vnet.NewConn(fmt.Sprintf("10.2.0.%d:99", i), vnet.Plan{In: [][]byte{psim.Frame(psim.THand, h.body())}})
		vsched.Spawn(fmt.Sprint("accept ", i), func() { _, err := p2p.AcceptNewPeer(c); res[fmt.Sprint(i)] = err })
	}
	vsched.Settle(1000 * vsched.Second)
	if len(res) != 4 || res["10.1.0.1:3414"] != nil || res["10.1.0.2:3414"] == nil || res["0"] != nil || res["1"] == nil {
		vsched.Fail("many", "handshakes at the same time end otherwise: %v", res)
	}
}
