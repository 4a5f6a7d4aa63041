// C30: a slow or silent peer holds up nobody else.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

const (
	slow  = "10.1.0.1:3414" // the slow one
	busy  = "10.1.0.2:3414" // who wants something
	third = "10.1.0.3:3414"
	fresh = "10.1.0.4:3414"
)

// prompt is the virtual time within which everything must have happened.
const prompt = 3 * vsched.Second

func block(h, td uint64) *consensus.Block {
	b := chain.Testnet4
	b.Header.Height = h
	b.Header.TotalDifficulty = consensus.Difficulty(td)
	return &b
}

// kinds of slowness; connected ones have completed the handshake.
var connected = []string{"deaf", "deaf at once", "half", "silent"}
var unconnected = []string{"mute", "half shake", "drip", "hang"}

// asks is what the slow peer sends while it does not read.
var asks = []string{"", "ping", "headers", "block", "addrs", "all", "top block", "bad block", "bad headers", "gossip"}

// wishes of the others.
var wishes = []string{"ping", "headers", "block", "addrs", "all", "top block", "bad block", "gossip", "user lists", "user chain", "user ban", "user ban slow", "user relay", "user add", "leave", "stop"}

func request(what string) (f [][]byte) {
	switch what {
	case "ping":
		return [][]byte{psim.Ping(9, 9)}
	case "headers":
		return [][]byte{psim.GetHeaders(make([]byte, 32))}
	case "block":
		return [][]byte{psim.Frame(psim.TGetBlock, known)}
	case "addrs":
		return [][]byte{psim.Frame(psim.TGetPeerAddrs, []byte{0, 0, 0, 0})}
	case "all":
		for _, w := range []string{"block", "addrs", "headers", "ping"} {
			f = append(f, request(w)...)
		}
		return
	case "top block":
		return [][]byte{psim.Frame(psim.TBlock, block(6, 60).Bytes())}
	case "bad block":
		return [][]byte{psim.Frame(psim.TBlock, block(7, 1).Bytes())}
	case "bad headers":
		return [][]byte{psim.Frame(psim.THeaders, append([]byte{0, 1}, block(7, 1).Bytes()[:len(block(7, 1).Header.Bytes())]...))}
	case "gossip":
		return [][]byte{psim.Addrs("10.9.0.1:1", "10.9.0.2:2")}
	}
	return nil
}

var known = bytes.Repeat([]byte{7}, 32)

type story struct {
	kind, ask, wish string
	n               int // slow peers
}

func (s story) name() string { return fmt.Sprintf("%d %s %s | %s", s.n, s.kind, s.ask, s.wish) }

func (s story) isConnected() bool {
	for _, k := range connected {
		if k == s.kind {
			return true
		}
	}
	return false
}

func slowAddr(i int) string { return fmt.Sprintf("10.1.%d.1:3414", i) }

func (s story) body() {
	vsched.Freeze(true)
	var addrs []string
	isSlow := map[string]bool{}
	for i := 0; i < s.n; i++ {
		isSlow[slowAddr(i)] = true
		if s.isConnected() {
			addrs = append(addrs, slowAddr(i))
		}
	}
	addrs = append(addrs, busy, third)
	free := 1
	if s.wish == "leave" {
		free = 0
	}
	n := psim.New(psim.Opt{Addrs: addrs, Limit: 2 + s.n + free, Plan: func(a string, k int) vnet.Plan {
		switch {
		case k > 0 || a[:5] == "10.9.":
			return vnet.Plan{Refuse: true}
		case !isSlow[a]:
			return psim.Greet()
		}
		switch s.kind {
		case "deaf at once":
			first := true
			p := psim.Greet()
			p.OnWrite = func(c *vnet.TCPConn, b []byte) {
				if first {
					c.Stall(1)
				}
				first = false
			}
			return p
		case "mute":
			return vnet.Plan{}
		case "half shake":
			f := psim.Good().Frame()
			return vnet.Plan{In: [][]byte{f[:len(f)/2]}}
		case "drip": // a byte of an endless user agent every ten seconds
			f := psim.Good().Frame()[:11+16]
			binary.BigEndian.PutUint64(f[3:], 16000000)
			return vnet.Plan{In: [][]byte{append(f, 0, 0, 0, 0, 0, 200, 0, 0)}, Drip: 10 * vsched.Second}
		case "hang":
			return vnet.Plan{Hang: true}
		}
		return psim.Greet()
	}})
	c := n.Chain
	c.Blocks[string(known)] = block(3, 30)
	c.Headers = func(consensus.Locator) []consensus.BlockHeader {
		return []consensus.BlockHeader{block(4, 40).Header, block(5, 50).Header}
	}
	c.BadHdr = func([]consensus.BlockHeader) error { return errors.New("bad headers") }
	c.BadBlk = func(b *consensus.Block) error {
		if b.Header.Height == 7 {
			return errors.New("bad block")
		}
		return nil
	}
	c.Top = func(b *consensus.Block) bool { return b.Header.Height == 6 }
	n.Start()
	if !psim.Until(20*vsched.Second, func() bool {
		for _, a := range addrs {
			if x := n.Open(a); x == nil || !isSlow[a] && len(psim.After(x)) < 2 {
				return false
			}
		}
		return true
	}) {
		vsched.Fail("connect", "the peers are not connected")
	}
	if s.isConnected() {
		for i := 0; i < s.n && s.kind == "deaf"; i++ {
			n.Conn(slowAddr(i)).Drain()
			n.Conn(slowAddr(i)).Stall(1)
		}
	} else {
		for i := 0; i < s.n; i++ {
			n.S.Pool.Add(slowAddr(i))
		}
		if !psim.Until(5*vsched.Second, func() bool { return len(n.Net.Dials) > len(addrs) }) {
			vsched.Fail("dial", "no connection is made to a new peer")
		}
	}
	b, t := n.Open(busy), n.Open(third)
	b0, t0 := len(psim.After(b)), len(psim.After(t))
	vsched.Freeze(false)

	for i := 0; i < s.n && s.isConnected(); i++ {
		x := n.Conn(slowAddr(i))
		vsched.Spawn("slow", func() {
			for _, f := range request(s.ask) {
				x.Feed(f)
			}
			if s.kind == "half" {
				x.Feed(psim.Ping(1, 1)[:14])
			}
		})
	}
	user := func(f func()) *vsched.Thread { return vsched.Spawn("user", f) }
	var us []*vsched.Thread
	relayed := block(8, 80)
	switch s.wish {
	case "user lists":
		us = append(us, user(func() { n.Listed(0); n.Known(slowAddr(0)) }), user(func() { n.Banned(busy); n.S.Pool.Add(fresh) }))
	case "user chain":
		us = append(us, user(func() { c.Grow(5, 51) }))
	case "user ban":
		us = append(us, user(func() { n.S.Pool.Ban(busy) }))
	case "user ban slow":
		us = append(us, user(func() { n.S.Pool.Ban(slowAddr(0)) }))
	case "user relay":
		us = append(us, user(func() { n.S.Pool.PropagateBlock(relayed) }))
	case "user add":
		us = append(us, user(func() { n.S.Pool.Add(fresh) }))
	case "leave":
		vsched.Spawn("busy", func() { b.RemoteClose() })
		us = append(us, user(func() { n.S.Pool.Add(fresh) }))
	case "stop":
		us = append(us, user(func() { n.S.Stop() }))
	default:
		vsched.Spawn("busy", func() {
			for _, f := range request(s.wish) {
				b.Feed(f)
			}
		})
	}
	vsched.Settle(prompt)
	vsched.Freeze(true)
	waits := s.wish == "user ban slow" && !s.isConnected() // until the attempt to connect ends
	for _, u := range us {
		if !u.Done() && !waits {
			vsched.Fail("user", "a call by the user waits for a slow peer: %s", u.Waiting())
		}
	}
	got := func(x *vnet.TCPConn, from int, typ uint8) int { return len(psim.Of(psim.After(x)[from:], typ)) }
	need := func(x *vnet.TCPConn, from int, typ uint8, want int) {
		if k := got(x, from, typ); k != want {
			vsched.Fail("unserved", "%s got %d messages of type %d instead of %d while another peer is slow (%s)", x.RemoteAddr(), k, typ, want, s.kind)
		}
	}
	switch s.wish {
	case "ping":
		need(b, b0, psim.TPong, 1)
	case "headers":
		need(b, b0, psim.THeaders, 1)
	case "addrs":
		need(b, b0, psim.TPeerAddrs, 1)
	case "all":
		for _, k := range []uint8{psim.TPong, psim.THeaders, psim.TPeerAddrs} {
			need(b, b0, k, 1)
		}
		fallthrough
	case "block":
		if got(b, b0, psim.TBlock) < 1 {
			need(b, b0, psim.TBlock, 1)
		}
	case "top block":
		if got(t, t0, psim.TBlock) < 1 {
			need(t, t0, psim.TBlock, 1)
		}
		if c.NBlocks < 1 {
			vsched.Fail("unserved", "the block of %s is not processed", busy)
		}
	case "user relay":
		if got(t, t0, psim.TBlock) < 1 || got(b, b0, psim.TBlock) < 1 {
			vsched.Fail("unserved", "a block is not relayed while a peer is slow")
		}
	case "bad block", "user ban":
		if !b.Closed() {
			vsched.Fail("ban", "a banned peer is still connected while another one is slow")
		}
		if x, ok := n.Banned(busy); ok && !x {
			vsched.Fail("ban", "a peer is not banned while another one is slow")
		}
	case "gossip":
		if !n.Known("10.9.0.1:1") || !n.Known("10.9.0.2:2") {
			vsched.Fail("unserved", "addresses are not taken while a peer is slow")
		}
	}
	// the others are unaffected
	for _, x := range []*vnet.TCPConn{b, t} {
		gone := x == b && (s.wish == "bad block" || s.wish == "user ban" || s.wish == "leave") || s.wish == "stop"
		if s.wish == "stop" && !s.isConnected() {
			continue // the end waits for the attempt to connect
		}
		if gone != x.Closed() {
			vsched.Fail("others", "the connection to %s: closed is %v", x.RemoteAddr(), x.Closed())
		}
	}
	if s.wish == "stop" {
		n.Ended()
		vsched.Outcome("ended")
		return
	}
	late := vsched.Spawn("late user", func() {
		c.Lock()
		c.Unlock()
		n.Listed(0)
		n.Known(third)
		n.Banned(third)
		n.S.Pool.Add("10.9.0.3:3")
	})
	vsched.Settle(vsched.Second)
	if !late.Done() {
		vsched.Fail("user", "a late user waits: %s", late.Waiting())
	}
	if s.wish == "user add" || s.wish == "leave" || s.wish == "user lists" {
		d := 8 * vsched.Second
		if !s.isConnected() {
			d = 200 * vsched.Second
		}
		if !psim.Until(d, func() bool { return n.Open(fresh) != nil }) {
			vsched.Fail("new", "a new peer is not connected while another one is slow")
		}
	}
	n.Finish()
	vsched.Outcome(s.kind + " " + s.wish)
}

func main() {
	psim.Main("C30", "One or two slow peers of eight kinds (not reading, from the start or later, stopping in the middle of a message or of the handshake, sending it endlessly slowly, silent, unreachable) which also ask for every kind of answer or get themselves banned, while another peer or the user makes one of 16 wishes; all schedules within the deviation bound of the real code are run, and the wish must be fulfilled within three virtual seconds (a new connection within eight, or the time of an attempt to connect), whatever the slow peers do.", func(thorough bool) (l []psim.Scenario) {
		add := func(s story, q ...vsched.Config) {
			l = append(l, psim.Scenario{Name: s.name(), Body: s.body, Quick: q, Deep: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0)}})
		}
		for _, w := range wishes {
			for _, k := range connected {
				for _, a := range asks {
					if k == "half" || k == "silent" {
						if a != "" {
							continue
						}
					}
					q := []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1)}
					if a == "" || a == "all" {
						q = append(q, psim.Pts(1, 0))
					}
					if w == "stop" {
						if a != "" && a != "all" && a != "top block" {
							continue
						}
						q = []vsched.Config{psim.Cfg(1, 0)}
					}
					add(story{k, a, w, 1}, q...)
				}
				if k[:4] == "deaf" {
					add(story{k, "all", w, 2}, psim.Cfg(1, 0))
				}
			}
			for _, k := range unconnected {
				q := []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0)}
				if w == "stop" {
					q = []vsched.Config{psim.Cfg(1, 0)}
				}
				add(story{k, "", w, 1}, q...)
				if k != "hang" {
					add(story{k, "", w, 2}, psim.Cfg(1, 0))
				}
			}
		}
		return
	})
}
