// C24: queued messages arrive whole, in order and once.
package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

const addr, addr2 = "10.1.0.1:3414", "10.1.0.2:3414"

// message k of sender s: small, or longer than any buffer.
func message(s, k int, kind byte) p2p.Message {
	id := uint64(s*100 + k)
	switch kind {
	case 'b': // more than one buffer
		m := new(p2p.BlockHeaders)
		for i := 0; i < 16; i++ {
			h := chain.Testnet4.Header
			h.Height = id
			m.Headers = append(m.Headers, h)
		}
		return m
	case 'k':
		b := chain.Testnet4
		b.Header.Height = id
		return &b
	case 'g':
		m := new(p2p.GetBlock)
		m.Hash = bytes.Repeat([]byte{byte(id)}, 32)
		return m
	case 'l':
		m := new(p2p.GetBlockHeaders)
		for i := 0; i < 3; i++ {
			m.Locator.Hashes = append(m.Locator.Hashes, bytes.Repeat([]byte{byte(id), byte(i)}, 16))
		}
		return m
	}
	if n, ok := sizes[kind]; ok {
		b := bytes.Repeat([]byte{byte(id)}, n)
		for i := range b {
			b[i] += byte(i >> 8)
		}
		return raw(b)
	}
	m := new(p2p.Ping)
	m.Height = id
	m.TotalDifficulty = consensus.Difficulty(id)
	return m
}

// raw is a message of the user.
type raw []byte

func (r raw) Bytes() []byte           { return r }
func (r raw) Type() uint8             { return psim.TBlock }
func (r raw) Read(r2 io.Reader) error { return nil }

var sizes = map[byte]int{'0': 0, '1': 1, '4': 4085, '5': 4086, '8': 8192, 'x': 70000}

type story struct {
	senders []string // kinds of the messages of each
	pings   int      // of the remote side
	end     string   // "", close, eof, reset, junk
	faults  bool
	stall   bool
	accept  bool
	other   []string // senders of a second peer
}

func (s story) name() string {
	if s.other != nil {
		return fmt.Sprintf("%s and %s pings %d end %q stall %v", strings.Join(s.senders, "|"), strings.Join(s.other, "|"), s.pings, s.end, s.stall)
	}
	return fmt.Sprintf("%s pings %d end %q faults %v stall %v accept %v", strings.Join(s.senders, "|"), s.pings, s.end, s.faults, s.stall, s.accept)
}

type item struct {
	frame    []byte
	sender   int
	returned bool
}

func (s story) body() {
	addrs := []string{addr}
	if s.other != nil {
		addrs = append(addrs, addr2)
	}
	n := psim.New(psim.Opt{Addrs: addrs, Plan: func(string, int) vnet.Plan { return psim.Greet() }})
	var p *p2p.Peer
	var err error
	var c *vnet.TCPConn
	if s.accept {
		hand := handFrame()
		c = vnet.NewConn(addr, vnet.Plan{In: [][]byte{hand}})
		p, err = p2p.AcceptNewPeer(c)
	} else {
		p, err = p2p.NewPeer(n.S, addr)
		c = n.Conn(addr)
	}
	if err != nil || p == nil {
		vsched.Fail("connect", "the handshake fails: %v", err)
	}
	c.Drain()
	base := len(c.Out)
	if s.faults {
		c.Faults()
	}
	if s.stall {
		big := 0
		for i, kinds := range s.senders {
			for k := range kinds {
				if n := len(message(i, k, kinds[k]).Bytes()) + 11; n > big {
					big = n
				}
			}
		}
		c.Stall(big) // one of the longest at a time
	}
	var p2 *p2p.Peer
	var c2 *vnet.TCPConn
	base2 := 0
	if s.other != nil {
		if p2, err = p2p.NewPeer(n.S, addr2); err != nil || p2 == nil {
			vsched.Fail("connect", "the second handshake fails: %v", err)
		}
		c2 = n.Conn(addr2)
		c2.Drain()
		base2 = len(c2.Out)
		p2.Start()
	}
	p.Start()
	items, ts := send(p, s.senders, 0)
	var items2 []*item
	var ts2 []*vsched.Thread
	if p2 != nil {
		items2, ts2 = send(p2, s.other, 10)
	}
	if s.pings > 0 {
		vsched.Spawn("remote", func() {
			for i := 0; i < s.pings; i++ {
				c.Feed(psim.Ping(uint64(i), 1))
				if c2 != nil {
					c2.Feed(psim.Ping(uint64(i), 1))
				}
			}
		})
	}
	if s.stall {
		vsched.Spawn("reader", func() {
			for i := 0; i < 4*len(items)+4*s.pings; i++ {
				vsched.SleepFor(vsched.Second)
				c.Drain()
			}
		})
	}
	for _, e := range strings.Fields(s.end) {
		e := e
		vsched.Spawn("end "+e, func() {
			switch e {
			case "close":
				p.Close()
			case "eof":
				c.RemoteClose()
			case "reset":
				c.RemoteReset()
			case "junk":
				c.Feed([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
			}
		})
	}
	vsched.Settle(200 * vsched.Second)
	s.check(c, base, s.senders, items, ts, s.end == "" && !c.Failed)
	if c2 != nil {
		s.check(c2, base2, s.other, items2, ts2, true)
	}
}

// check compares the bytes of a connection with what was sent.
func (s story) check(c *vnet.TCPConn, base int, senders []string, items []*item, ts []*vsched.Thread, up bool) {
	if up && c.Closed() {
		vsched.Fail("closed early", "the connection is closed without a reason")
	}
	out := c.Out[base:]
	frames, rest, err := psim.Frames(out)
	if err != nil {
		vsched.Fail("frames", "the stream is no sequence of frames: %v", err)
	}
	if len(rest) > 0 {
		if up {
			vsched.Fail("frames", "the last frame is incomplete")
		}
		ok := false
		for _, it := range items {
			ok = ok || bytes.HasPrefix(it.frame, rest)
		}
		if !ok && s.pings == 0 {
			vsched.Fail("frames", "an incomplete frame of no message")
		}
	}
	pongs := 0
	next := make([]int, len(senders)) // index into the items of the sender
	for _, m := range frames {
		if m.Type == psim.TPong {
			pongs++
			continue
		}
		f := psim.Frame(m.Type, m.Body)
		found := false
		for i := range senders {
			k := 0
			for _, it := range items {
				if it.sender != i {
					continue
				}
				if k >= next[i] && bytes.Equal(it.frame, f) {
					if up && k != next[i] {
						vsched.Fail("order", "a message of sender %d was overtaken or lost", i)
					}
					next[i] = k + 1
					found = true
					break
				}
				k++
			}
			if found {
				break
			}
		}
		if !found {
			vsched.Fail("message", "a frame of type %d is no message that was sent, or came twice or out of order", m.Type)
		}
	}
	if pongs > s.pings {
		vsched.Fail("pongs", "%d answers to %d pings", pongs, s.pings)
	}
	if up {
		if pongs != s.pings && !s.accept {
			vsched.Fail("pongs", "%d answers to %d pings", pongs, s.pings)
		}
		for i, kinds := range senders {
			if next[i] != len(kinds) {
				vsched.Fail("lost", "only %d of %d messages of sender %d were written", next[i], len(kinds), i)
			}
			if !ts[i].Done() {
				vsched.Fail("stuck", "sender %d does not return: %s", i, ts[i].Waiting())
			}
		}
	}
	vsched.Outcome(fmt.Sprintf("frames %d fault %v up %v", len(frames), c.Failed, up))
}

// send starts the senders of one peer.
func send(p *p2p.Peer, senders []string, first int) (items []*item, ts []*vsched.Thread) {
	for i, kinds := range senders {
		var mine []*item
		var msgs []p2p.Message
		for k := range kinds {
			m := message(first+i+1, k, kinds[k])
			it := &item{frame: psim.Frame(m.Type(), m.Bytes()), sender: i}
			mine = append(mine, it)
			msgs = append(msgs, m)
		}
		items = append(items, mine...)
		ts = append(ts, vsched.Spawn(fmt.Sprintf("sender %d", first+i), func() {
			for k, m := range msgs {
				if b, ok := m.(*consensus.Block); ok {
					p.SendBlock(b)
				} else {
					p.WriteMessage(m)
				}
				mine[k].returned = true
			}
		}))
	}
	return
}

func handFrame() []byte {
	b := []byte{0, 0, 0, 1, 0, 0, 0, 7, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0, 0, 0, 0, 0, 1}
	b = append(b, 0, 10, 0, 0, 2, 0x0d, 0x56, 0, 10, 0, 0, 3, 0x0d, 0x56)
	b = append(b, 0, 0, 0, 0, 0, 0, 0, 1, 'x')
	b = append(b, chain.Testnet4.Hash()...)
	return psim.Frame(psim.THand, b)
}

func main() {
	psim.Main("C24", "Up to three senders with up to three distinguishable messages each (some longer than any buffer) share one connection with answers to the remote side, alone or beside the senders of a second peer, while it is closed, ends, breaks, fails in any write (entirely or half, later writes succeeding) or the remote side reads slowly. All schedules within the deviation bound of the real code are run and the bytes on the connection are compared with what was sent.", func(thorough bool) (l []psim.Scenario) {
		add := func(s story, q ...vsched.Config) {
			if len(q) == 0 {
				q = []vsched.Config{psim.Cfg(2, 0), psim.Cfg(2, 1), psim.Pts(1, 0), psim.Pts(1, 1)}
			}
			l = append(l, psim.Scenario{Name: s.name(), Body: s.body, Quick: q, Shards: 1,
				Deep: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(3, 1), psim.Pts(2, 0), psim.Pts(2, 1), psim.Tim(1, 0)}})
		}
		sets := [][]string{{"p"}, {"ppp"}, {"bpb"}, {"pkg"}, {"p", "p"}, {"pp", "gg"}, {"b", "b"}, {"bp", "pb"}, {"lb", "k"}, {"p", "p", "p"}, {"b", "p", "b"}, {"pp", "pp", "bb"}}
		for _, x := range sets {
			add(story{senders: x}, psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0), psim.Pts(1, 1))
			add(story{senders: x, pings: 2})
			add(story{senders: x, accept: true})
			add(story{senders: x, stall: true})
			add(story{senders: x, faults: true})
			add(story{senders: x, faults: true, pings: 1})
			for _, e := range []string{"close", "eof", "reset", "junk", "close close", "close eof"} {
				add(story{senders: x, end: e})
				add(story{senders: x, end: e, pings: 1})
				add(story{senders: x, end: e, faults: true})
				add(story{senders: x, end: e, stall: true})
				if e[0] == 'c' || e == "eof" || e == "reset" {
					add(story{senders: x, end: e, accept: true})
				}
			}
		}
		// bodies of every size relative to the buffers
		for _, x := range [][]string{{"4p"}, {"5p"}, {"8p", "1"}, {"x", "1"}, {"x1", "x"}, {"0p"}} {
			for _, e := range []string{"", "close", "reset"} {
				add(story{senders: x, end: e, faults: true})
			}
			add(story{senders: x, pings: 1})
			add(story{senders: x, stall: true})
		}
		for _, x := range [][2]string{{"p", "p"}, {"pg", "lp"}, {"b", "b"}, {"k", "b"}, {"p|g", "b"}} {
			for _, e := range []string{"", "close", "reset"} {
				for pings := 0; pings < 2; pings++ {
					add(story{senders: strings.Split(x[0], "|"), other: []string{x[1]}, end: e, pings: pings}, psim.Cfg(2, 0), psim.Cfg(2, 1), psim.Pts(1, 0))
				}
			}
		}
		return
	})
}
