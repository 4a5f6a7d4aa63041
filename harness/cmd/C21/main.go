// C21: a banned peer is disconnected and never contacted again.
package main

import (
	"errors"
	"fmt"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

const (
	A = "10.1.0.1:3414"
	B = "10.1.0.2:3414"
	C = "10.1.0.3:3414"
)

// scen is a story: how A behaves, what gets it banned, what happens meanwhile.
type scen struct {
	state string // of A: good, refuse, stall, slow, flap
	why   string // user, user2, headers, block, tx
	when  string // start, up
	also  []string
	limit int
}

func genesisBlock() []byte { b := chain.Testnet4; return psim.Frame(psim.TBlock, b.Bytes()) }

func headers() []byte {
	h := chain.Testnet4.Header
	return psim.Frame(psim.THeaders, append([]byte{0, 1}, h.Bytes()...))
}

func transaction() []byte {
	// offset, and no inputs, outputs and kernels
	return psim.Frame(psim.TTransaction, make([]byte, 32+24))
}

func (s scen) name() string { return fmt.Sprintf("%s %s %s %v", s.state, s.why, s.when, s.also) }

func (s scen) body() func() {
	return func() {
		A, R := A, A // R is the remote address of its connections
		switch s.state {
		case "alias":
			A, R = "0.0.0.0:3414", "127.0.0.1:3414"
		case "no host":
			A, R = ":3414", "127.0.0.1:3414"
		}
		var n *psim.Node
		isBanned := func() (bool, bool) {
			b, known := n.Banned(A)
			if r, _ := n.Banned(R); known && r {
				b = true
			}
			return b, known
		}
		var evil []byte
		switch s.why {
		case "headers":
			evil = headers()
		case "block":
			evil = genesisBlock()
		case "tx":
			evil = transaction()
		}
		pool := &psim.Pool{Err: func(*consensus.Transaction) error { return errors.New("bad transaction") }}
		n = psim.New(psim.Opt{Addrs: []string{A, B}, Limit: s.limit, Mempool: pool, Plan: func(addr string, k int) vnet.Plan {
			if addr != A && addr != R {
				return psim.Greet()
			}
			switch {
			case s.state == "refuse":
				return vnet.Plan{Refuse: true}
			case s.state == "hang":
				return vnet.Plan{Hang: true}
			case s.state == "stall":
				return vnet.Plan{}
			case s.state == "flap" && k == 0:
				p := psim.Greet()
				p.EOF = true
				return p
			case s.state == "full":
				p := psim.Greet(psim.GetHeaders())
				if s.when == "start" && evil != nil {
					p.In = append(p.In, evil)
				}
				p.Window = 2000
				return p
			}
			if evil != nil && s.when == "start" {
				return psim.Greet(evil)
			}
			return psim.Greet()
		}})
		n.Chain.Headers = func(consensus.Locator) (l []consensus.BlockHeader) {
			for len(l) < 12 {
				l = append(l, chain.Testnet4.Header)
			}
			return
		}
		n.Chain.BadHdr = func([]consensus.BlockHeader) error { return errors.New("bad headers") }
		n.Chain.BadBlk = func(*consensus.Block) error { return errors.New("bad block") }
		n.Start()
		if s.when == "up" {
			if !psim.Until(10*vsched.Second, func() bool { return n.Open(R) != nil && n.Open(B) != nil }) {
				vsched.Fail("connect", "the peers are not connected")
			}
		}
		var ts []*vsched.Thread
		spawn := func(name string, f func()) { ts = append(ts, vsched.Spawn(name, f)) }
		var banned, returned int64 // when the ban returned
		var bans int
		ban := func() {
			n.S.Pool.Ban(A)
			if bans++; bans == 1 {
				returned = vsched.Now()
			}
		}
		for _, x := range s.also {
			switch x {
			case "gossip":
				spawn("gossip", func() {
					if c := n.Open(B); c != nil {
						if s.state == "no host" {
							c.Feed(psim.Addrs(C))
						} else {
							c.Feed(psim.Addrs(A, C))
						}
					}
				})
			case "add":
				spawn("add", func() { n.S.Pool.Add(A); n.S.Pool.Add(C) })
			case "list":
				spawn("list", func() { n.Listed(0) })
			case "ping":
				spawn("ping", func() {
					if c := n.Conn(R); c != nil {
						c.Feed(psim.Ping(3, 3))
					}
				})
			case "eof":
				spawn("eof", func() {
					if c := n.Conn(R); c != nil {
						c.RemoteClose()
					}
				})
			case "propagate":
				spawn("propagate", func() { b := chain.Testnet4; b.Header.Height = 99; n.S.Pool.PropagateBlock(&b) })
			case "banB":
				// handled below
			case "stop":
				spawn("stop", func() { n.S.Stop() })
			}
		}
		switch s.why {
		case "user":
			spawn("ban", ban)
		case "user2":
			spawn("ban", ban)
			spawn("ban again", ban)
		default:
			if s.when == "up" {
				spawn("evil", func() { n.Conn(R).Feed(evil) })
			}
		}
		vsched.Settle(300 * vsched.Millisecond)
		// the ban may have to wait for a handshake that stalls or a dial
		psim.Until(140*vsched.Second, func() bool {
			for _, t := range ts {
				if !t.Done() {
					return false
				}
			}
			b, known := isBanned()
			return b || !known
		})
		banned = vsched.Now()
		for _, t := range ts {
			if !t.Done() {
				vsched.Fail("stuck", "%s does not return: %s", t.Name, t.Waiting())
			}
		}
		// a stop, or the end of the connection, may come before the message that would have led to the ban
		if b, known := isBanned(); known && !b {
			// the connection may have ended before the message was read
			if evil != nil && (psim.Has(s.also, "stop") || psim.Has(s.also, "eof")) {
				if !psim.Has(s.also, "stop") {
					// it is connected to again; what it sent is lost
					vsched.Outcome("ended before")
					return
				}
				vsched.Outcome("stopped before")
				return
			}
			vsched.Fail("not banned", "the peer is not banned")
		}
		vsched.Settle(2 * vsched.Second)
		check := func(when string) {
			if psim.Has(n.Listed(0), A) || psim.Has(n.Listed(0), R) {
				vsched.Fail("listed", "the banned peer is handed out %s", when)
			}
			for _, c := range n.Net.Conns {
				if c.RemoteAddr().String() == R && !c.Closed() {
					vsched.Fail("open", "the connection to the banned peer is open %s", when)
				}
			}
			if b, known := isBanned(); known && !b {
				vsched.Fail("not banned", "the peer is not banned any more %s", when)
			}
			if l, known := n.Connected(); known && (psim.Has(l, A) || psim.Has(l, R)) {
				vsched.Fail("connected", "the banned peer is listed as connected %s", when)
			}
			for _, d := range n.Net.Dials {
				if (d.Addr == A || d.Addr == R) && (d.At > banned || returned > 0 && d.At > returned) {
					vsched.Fail("dialled", "the banned peer is contacted %s", when)
				}
			}
			if n.Known(A) {
				if st, ok := n.Member(A, "Status"); ok && st != 2 {
					vsched.Fail("status", "the banned peer is known with status %d %s", st, when)
				}
			}
		}
		check("after the ban")
		// everybody mentions it again
		n.S.Pool.Add(A)
		if A == R {
			n.S.Pool.Add("[::ffff:10.1.0.1]:3414")
			n.S.Pool.Add("10.1.0.1:03414")
		}
		if !psim.Has(s.also, "stop") {
			b := n.Open(B)
			if b == nil {
				vsched.Fail("other", "the other peer is not connected after the ban")
			}
			if s.state != "no host" {
				b.Feed(psim.Addrs(A))
			}
			k := len(psim.Of(psim.After(b), psim.TPong))
			b.Feed(psim.Ping(8, 8))
			vsched.Settle(5 * vsched.Second)
			if len(psim.Of(psim.After(b), psim.TPong)) != k+1 {
				vsched.Fail("other", "the other peer is not answered after the ban")
			}
			if !psim.Has(n.Listed(0), B) {
				vsched.Fail("other", "the other peer is not handed out after the ban")
			}
			if b, known := n.Banned(B); known && b {
				vsched.Fail("other", "the other peer is banned")
			}
		}
		check("after it was added again")
		n.S.Pool.Ban(A) // once more
		vsched.Settle(40 * vsched.Second)
		check("after a while")
		vsched.Outcome(fmt.Sprintf("dials %d", len(n.Net.Dials)))
	}
}

func main() {
	psim.Main("C21", "Stories of a pool with two peers: the first one (reachable, refusing, stalling in the handshake, unreachable, coming and going, not reading) is banned by the user or for what it sends, at the start or when connected, while up to two other things happen (gossip, adding, listing, messages, its end, relaying, stopping). All schedules within the deviation bound of the real code are run.", func(thorough bool) (l []psim.Scenario) {
		add := func(s scen, q ...vsched.Config) {
			l = append(l, psim.Scenario{Name: s.name(), Body: s.body(), Quick: q, Shards: 2,
				Deep: []vsched.Config{psim.Cfg(2, 0), psim.Cfg(2, 1), psim.Pts(2, 0), psim.Pts(2, 1), psim.Tim(1, 0)}})
		}
		std := []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0), psim.Pts(1, 1)}
		also := []string{"gossip", "add", "list", "ping", "eof", "propagate", "stop"}
		for _, state := range []string{"good", "refuse", "stall", "hang", "flap", "full"} {
			for _, why := range []string{"user", "user2"} {
				add(scen{state, why, "start", nil, 2}, std...)
				for _, x := range also {
					add(scen{state, why, "start", []string{x}, 2}, psim.Cfg(1, 0), psim.Pts(1, 0), psim.Cfg(1, 1))
				}
			}
		}
		for _, why := range []string{"user", "user2", "headers", "block", "tx"} {
			add(scen{"good", why, "up", nil, 2}, std...)
			add(scen{"full", why, "up", nil, 2}, psim.Cfg(1, 0), psim.Pts(1, 0))
			if why != "user" && why != "user2" {
				add(scen{"good", why, "start", nil, 2}, std...)
			}
			// known by an address that is not the one of its connections
			for _, state := range []string{"alias", "no host"} {
				add(scen{state, why, "up", nil, 2}, std...)
				for _, x := range also {
					add(scen{state, why, "up", []string{x}, 2}, psim.Cfg(1, 0), psim.Pts(1, 0))
				}
			}
			for i, x := range also {
				add(scen{"good", why, "up", []string{x}, 2}, psim.Cfg(2, 0), psim.Pts(1, 0), psim.Cfg(1, 1))
				for _, y := range also[i+1:] {
					add(scen{"good", why, "up", []string{x, y}, 2}, psim.Cfg(1, 0), psim.Pts(1, 0))
				}
			}
		}
		return
	})
}
