// C26: only accepted top blocks are relayed, to those who lack them.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

const max = 1<<64 - 1

func addr(i int) string { return fmt.Sprintf("10.1.0.%d:3414", i+1) }

func block(h, td uint64) *consensus.Block {
	b := chain.Testnet4
	b.Header.Height = h
	b.Header.TotalDifficulty = consensus.Difficulty(td)
	return &b
}

// info is what a peer told about itself.
type info struct{ td, h uint64 }

func (i info) lacks(h, td uint64) bool { return i.h < h || i.td < td }

type story struct {
	verdict string // top, equal, below, above, reject, reject equal, reject below, direct (relayed by the user)
	a       info   // of the sender
	rest    []info // of the others
	by      string // how they told: ping, pong, block
	also    string
	second  bool // the last of the others sends a block of its own
	h, td   uint64
	agree   bool
}

func (s story) rejected() bool { return strings.HasPrefix(s.verdict, "reject") }

func (s story) name() string {
	return fmt.Sprintf("%s %v sender %v others %v by %s also %s second %v", s.verdict, [2]uint64{s.h, s.td}, s.a, s.rest, s.by, s.also, s.second)
}

func (s story) body() {
	vsched.Freeze(true)
	h, td := s.h, s.td
	peers := 1 + len(s.rest)
	var addrs []string
	for i := 0; i < peers; i++ {
		addrs = append(addrs, addr(i))
	}
	late := addr(8)
	n := psim.New(psim.Opt{Addrs: addrs, Limit: peers + 1, Plan: func(a string, k int) vnet.Plan {
		if k > 0 {
			return vnet.Plan{Refuse: true}
		}
		if s.also == "hang" && a == late {
			return vnet.Plan{Hang: true}
		}
		return psim.Greet()
	}})
	start := h - 1
	switch s.verdict {
	case "equal", "direct", "reject equal":
		start = h
	case "below", "reject below":
		start = h + 1
	case "above":
		start = h - 1
	}
	n.Chain = nil
	c := psim.NewChain(start, 60)
	n.Chain = c
	n.S.Chain = c
	set := map[string]bool{}
	c.Top = func(b *consensus.Block) bool {
		if set[string(b.Bytes())] {
			return false
		}
		return s.verdict == "top"
	}
	n.Start()
	if !psim.Until(20*vsched.Second, func() bool {
		for _, a := range addrs {
			if n.Open(a) == nil || len(psim.After(n.Open(a))) < 2 {
				return false
			}
		}
		return true
	}) {
		vsched.Fail("connect", "the peers are not connected")
	}
	var conns []*vnet.TCPConn
	for _, a := range addrs {
		conns = append(conns, n.Open(a))
	}
	infos := append([]info{s.a}, s.rest...)
	for i, x := range infos {
		switch {
		case x == info{1, 0}: // as it came
		case s.by == "pong":
			conns[i].Feed(psim.Pong(x.td, x.h))
		case s.by == "block": // the chain ignores it
			t := c.Top
			c.Top = nil
			hh := c.Height()
			if hh == x.h { // it would be relayed
				conns[i].Feed(psim.Ping(x.td, x.h))
			} else if x.td > 1 || x.h > 0 {
				conns[i].Feed(psim.Frame(psim.TBlock, block(x.h, x.td).Bytes()))
			}
			vsched.Settle(10 * vsched.Millisecond)
			c.Top = t
		default:
			conns[i].Feed(psim.Ping(x.td, x.h))
		}
	}
	vsched.Settle(100 * vsched.Millisecond)
	if s.also == "stalled" {
		conns[len(conns)-1].Drain()
		conns[len(conns)-1].Stall(5)
	}
	if s.rejected() {
		c.BadBlk = func(*consensus.Block) error { return errors.New("bad block") }
	}
	if s.also == "hang" { // another peer is being connected
		n.S.Pool.Add(late)
		if !psim.Until(5*vsched.Second, func() bool { return len(n.Net.Dials) > peers }) {
			vsched.Fail("connect", "the late peer is not dialled")
		}
	}
	b1, b2, b3 := block(h, td), block(h, td+1), block(h, td)
	b3.Header.Timestamp = b3.Header.Timestamp.Add(60e9)
	raw1, raw2, raw3 := b1.Bytes(), b2.Bytes(), b3.Bytes()
	third := false
	vsched.Freeze(false)
	switch s.verdict {
	case "direct":
		t := vsched.Spawn("relay", func() { n.S.Pool.PropagateBlock(b1) })
		defer func() {
			if !t.Done() && !vsched.Dead() {
				vsched.Fail("stuck", "relaying does not return: %s", t.Waiting())
			}
		}()
	default:
		vsched.Spawn("A", func() { conns[0].Feed(psim.Frame(psim.TBlock, raw1)) })
	}
	if s.second {
		vsched.Spawn("second", func() { conns[len(conns)-1].Feed(psim.Frame(psim.TBlock, raw2)) })
	}
	loose := map[int]bool{} // at most once
	switch s.also {
	case "told": // the first of the others tells that it has it
		loose[1] = true
		vsched.Spawn("told", func() { conns[1].Feed(psim.Ping(td+5, h+5)) })
	case "gone":
		loose[1] = true
		vsched.Spawn("gone", func() { conns[1].RemoteClose() })
	case "ban":
		loose[1] = true
		vsched.Spawn("ban", func() { n.S.Pool.Ban(addr(1)) })
	case "stop":
		for i := range conns {
			loose[i] = true
		}
		vsched.Spawn("stop", func() { n.S.Stop() })
	case "grow":
		for i := range conns {
			loose[i] = true
		}
		vsched.Spawn("grow", func() { c.Grow(h+1, td+50) })
	case "late":
		n.S.Pool.Add(late)
	case "asks": // one of the others asks for something
		vsched.Spawn("asks", func() { conns[1].Feed(psim.Ping(s.rest[0].td, s.rest[0].h)) })
	}
	d := 100 * vsched.Millisecond
	if s.also == "late" {
		d = 1500 * vsched.Millisecond
	}
	vsched.Settle(d)
	vsched.Freeze(true)
	relay := s.verdict == "top" || s.verdict == "equal" || s.verdict == "direct"
	count := func(i int, raw []byte) (k int) {
		for _, m := range psim.Of(psim.After(conns[i]), psim.TBlock) {
			if bytes.Equal(m.Body, raw) {
				k++
			} else if !bytes.Equal(m.Body, raw1) && !(s.second && bytes.Equal(m.Body, raw2)) && !(third && bytes.Equal(m.Body, raw3)) {
				vsched.Fail("content", "%s gets another block than was received", addr(i))
			}
		}
		return
	}
	out := ""
	var sent []int
	for i := range conns {
		if s.also == "stalled" && i == len(conns)-1 {
			continue
		}
		k := count(i, raw1)
		out += fmt.Sprint(k)
		want := 0
		if relay && infos[i].lacks(h, td) && (i > 0 || s.verdict == "direct") {
			want = 1
			sent = append(sent, k)
		}
		switch {
		case s.second && i == len(conns)-1:
			// its own block may have been processed before
			if k > want {
				vsched.Fail("relay", "%s gets the block %d times, expected at most %d", addr(i), k, want)
			}
		case loose[i]:
			if k > want {
				vsched.Fail("relay", "%s gets the block %d times, expected at most %d", addr(i), k, want)
			}
		case k != want:
			vsched.Fail("relay", "%s (known: %+v) gets the block %d times, expected %d", addr(i), infos[i], k, want)
		}
		if s.second {
			k2, want2 := count(i, raw2), 0
			out += fmt.Sprint("/", k2)
			if i < len(conns)-1 {
				x := infos[i]
				if relay && x.lacks(h, td+1) {
					want2 = 1
				}
				// what A is known to have changes with its block
				if i == 0 && relay && x.lacks(h, td) {
					want2 = 1
				}
			}
			if k2 != want2 {
				vsched.Fail("relay second", "%s (known: %+v) gets the second block %d times, expected %d", addr(i), infos[i], k2, want2)
			}
		}
	}
	if s.also == "grow" {
		for _, k := range sent {
			if k != sent[0] {
				vsched.Fail("some", "the block is relayed to some of those who lack it: %v", sent)
			}
		}
	}
	if x := n.Conn(late); x != nil {
		if k := len(psim.Of(psim.After(x), psim.TBlock)); k > 1 {
			vsched.Fail("relay late", "the new peer gets the block %d times", k)
		}
	}
	// afterwards
	if s.rejected() {
		if b, known := n.Banned(addr(0)); known && !b && s.also != "stop" {
			vsched.Fail("ban", "the sender of a rejected block is not banned")
		}
		if !conns[0].Closed() {
			vsched.Fail("ban", "the sender of a rejected block is still connected")
		}
	} else if s.also != "stop" {
		if conns[0].Closed() {
			vsched.Fail("closed", "the connection to the sender is closed")
		}
		want := s.a
		if want.lacks(h, td) {
			want = info{td, h}
		}
		if s.verdict != "direct" && !s.second {
			for _, x := range []struct {
				name string
				v    uint64
			}{{"TotalDifficulty", want.td}, {"Height", want.h}} {
				if v, known := n.Member(addr(0), x.name); known && v != x.v {
					vsched.Fail("info", "the known %s of the sender is %d, expected %d", x.name, v, x.v)
				}
			}
		}
	}
	if s.also == "" || s.also == "stalled" || s.also == "hang" {
		for i := 1; i < len(conns); i++ {
			if conns[i].Closed() {
				vsched.Fail("closed", "the connection to %s is closed", addr(i))
			}
		}
		if len(conns) == 1 {
			vsched.Outcome(out)
			return
		}
		// the others are still answered
		k := len(psim.Of(psim.After(conns[1]), psim.TPong))
		conns[1].Feed(psim.Ping(s.rest[0].td, s.rest[0].h))
		vsched.Settle(100 * vsched.Millisecond)
		if len(psim.Of(psim.After(conns[1]), psim.TPong)) != k+1 {
			vsched.Fail("answer", "%s is not answered any more", addr(1))
		}
		if count(1, raw1) > 1 {
			vsched.Fail("relay", "%s gets the block again", addr(1))
		}
	}
	if relay && s.also == "" && !s.second {
		// another block as high and heavy: relaying the first told nothing
		// about those it went to
		third = true
		if s.verdict == "direct" {
			n.S.Pool.PropagateBlock(b3)
		} else {
			conns[0].Feed(psim.Frame(psim.TBlock, raw3))
		}
		vsched.Settle(100 * vsched.Millisecond)
		for i := range conns {
			want := 0
			if infos[i].lacks(h, td) && (i > 0 || s.verdict == "direct") {
				want = 1
			}
			if k := count(i, raw3); k != want {
				vsched.Fail("relay again", "%s (known: %+v) gets the next block %d times, expected %d", addr(i), infos[i], k, want)
			}
		}
	}
	vsched.Outcome(out)
}

func main() {
	psim.Main("C26", "A node with a sender and up to two other peers, which have told every combination of heights and total difficulties around those of the block, receives it with each verdict of the chain (new top, equal height, below, above, rejected) or relays it for the user, while another peer tells that it has the block, ends, is banned, does not read, asks, connects, sends a second block, the chain grows or the node stops. All schedules within the deviation bound of the real code are run and the blocks on all connections compared with the rule.", func(thorough bool) (l []psim.Scenario) {
		add := func(s story, q ...vsched.Config) {
			if s.h == 0 {
				s.h, s.td = 10, 100
			}
			if s.by == "" {
				s.by = "ping"
			}
			l = append(l, psim.Scenario{Name: s.name(), Body: s.body, Quick: q, Shards: 1,
				Deep: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(3, 1), psim.Pts(2, 0), psim.Pts(2, 1)}})
		}
		verdicts := []string{"top", "equal", "below", "above", "reject", "reject equal", "reject below", "direct"}
		var infos []info
		for _, td := range []uint64{0, 99, 100, 101, max} {
			for _, h := range []uint64{0, 9, 10, 11, max} {
				infos = append(infos, info{td, h})
			}
		}
		fresh := info{1, 0}
		one := psim.Cfg(0, 0)
		for _, v := range verdicts {
			for _, x := range infos {
				add(story{verdict: v, a: fresh, rest: []info{x, fresh}}, psim.Cfg(1, 0), psim.Pts(1, 0))
				add(story{verdict: v, a: x, rest: []info{fresh}}, psim.Cfg(1, 0))
				add(story{verdict: v, a: fresh, rest: []info{x}, by: "pong"}, one)
				if !(story{verdict: v}).rejected() {
					add(story{verdict: v, a: info{101, 11}, rest: []info{x}, by: "block"}, one)
				}
				for _, y := range infos {
					add(story{verdict: v, a: fresh, rest: []info{x, y}}, one)
				}
			}
			for _, k := range []string{"told", "gone", "ban", "stop", "grow", "late", "asks", "stalled"} {
				for _, x := range []info{fresh, {100, 10}, {99, 10}, {101, 9}} {
					add(story{verdict: v, a: fresh, rest: []info{x, fresh}, also: k}, psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0))
				}
			}
			for _, x := range []info{fresh, {100, 10}, {99, 10}, {101, 9}} {
				add(story{verdict: v, a: x, also: "hang"}, psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0))
				add(story{verdict: v, a: fresh, rest: []info{x}, also: "hang"}, psim.Cfg(1, 0))
			}
			add(story{verdict: v, a: fresh, rest: []info{fresh}}, psim.Cfg(4, 0), psim.Cfg(2, 1), psim.Pts(2, 0), psim.Pts(1, 1))
			for _, big := range [][2]uint64{{1, 1}, {1 << 63, 1 << 63}, {max - 1, 7}, {7, max - 1}} {
				for _, x := range []info{{big[1] - 1, big[0]}, {big[1], big[0] - 1}, {big[1], big[0]}} {
					add(story{verdict: v, a: fresh, rest: []info{x}, h: big[0], td: big[1]}, one)
				}
			}
		}
		for _, v := range []string{"equal", "below", "above"} {
			for _, x := range []info{fresh, {100, 10}, {101, 10}, {102, 11}} {
				add(story{verdict: v, a: fresh, rest: []info{x, fresh}, second: true}, psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0))
			}
		}
		return
	})
}
