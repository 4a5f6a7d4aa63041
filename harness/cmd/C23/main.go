// C23: stopping ends all network activity.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

// kinds of peers.
var kinds = []string{"good", "refuse", "hang", "stall", "half", "drip", "flap", "full", "talk", "evil", "version"}

func addr(i int) string { return fmt.Sprintf("10.1.0.%d:3414", i+1) }

func block() *consensus.Block { b := chain.Testnet4; b.Header.Height = 99; return &b }

func plan(kind string, n int) (p vnet.Plan) {
	switch kind {
	case "refuse":
		return vnet.Plan{Refuse: true}
	case "hang":
		return vnet.Plan{Hang: true}
	case "stall":
		return vnet.Plan{}
	case "half":
		f := psim.Good().Frame()
		return vnet.Plan{In: [][]byte{f[:20]}}
	case "drip":
		f := psim.Good().Frame()[:11+16]
		binary.BigEndian.PutUint64(f[3:], 16000000)
		return vnet.Plan{In: [][]byte{append(f, 0, 0, 0, 0, 0, 200, 0, 0)}, Drip: 10 * vsched.Second}
	case "flap":
		p = psim.Greet()
		p.EOF = n%2 == 0
		return p
	case "full":
		p = psim.Greet(psim.GetHeaders(), psim.Ping(1, 1))
		p.Window = 2000
		return p
	case "talk":
		return psim.Greet(psim.Ping(1, 1), psim.GetHeaders(), psim.Addrs("10.9.0.1:3414"))
	case "evil":
		return psim.Greet(psim.Frame(psim.THeaders, append([]byte{0, 1}, chain.Testnet4.Header.Bytes()...)))
	case "version":
		s := psim.Good()
		s.Version = 2
		return vnet.Plan{In: [][]byte{s.Frame()}}
	}
	return psim.Greet()
}

type story struct {
	kinds []string
	limit int
	at    int64 // when, in ms; -1: before the pool runs
	also  string
}

func (s story) name() string {
	return fmt.Sprintf("%v limit %d at %d %s", s.kinds, s.limit, s.at, s.also)
}

func (s story) body() {
	var addrs []string
	for i := range s.kinds {
		addrs = append(addrs, addr(i))
	}
	n := psim.New(psim.Opt{Addrs: addrs, Limit: s.limit, Plan: func(a string, k int) vnet.Plan {
		for i, x := range s.kinds {
			if addr(i) == a {
				return plan(x, k)
			}
		}
		return vnet.Plan{Refuse: true}
	}})
	n.Chain.Headers = func(consensus.Locator) (l []consensus.BlockHeader) {
		for len(l) < 12 {
			l = append(l, chain.Testnet4.Header)
		}
		return
	}
	n.Chain.BadHdr = func([]consensus.BlockHeader) error { return errors.New("bad headers") }
	var ended int64
	run := func() {
		n.Run = vsched.Spawn("run", func() {
			n.S.Run()
			ended = vsched.Now()
		})
	}
	if s.at < 0 {
		n.S.Stop()
		run()
	} else {
		run()
		if s.at > 0 {
			vsched.Settle(s.at * vsched.Millisecond)
		}
		switch s.also {
		case "ban":
			vsched.Spawn("ban", func() { n.S.Pool.Ban(addr(0)) })
		case "add":
			vsched.Spawn("add", func() { n.S.Pool.Add(addr(5)) })
		case "propagate":
			vsched.Spawn("propagate", func() { n.S.Pool.PropagateBlock(block()) })
		case "eof":
			vsched.Spawn("eof", func() {
				if c := n.Conn(addr(0)); c != nil {
					c.RemoteClose()
				}
			})
		case "ping":
			vsched.Spawn("ping", func() {
				if c := n.Conn(addr(0)); c != nil {
					c.Feed(psim.Ping(4, 4))
				}
			})
		case "gossip":
			vsched.Spawn("gossip", func() {
				if c := n.Conn(addr(0)); c != nil {
					c.Feed(psim.Addrs(addr(5), addr(0)))
				}
			})
		}
		t := vsched.Spawn("stop", func() { n.S.Stop() })
		vsched.Settle(vsched.Millisecond)
		if !t.Done() {
			vsched.Fail("stop call", "the stop request itself does not return: %s", t.Waiting())
		}
	}
	n.Ended()
	// nothing happens any more, also if there are new peers
	k := len(n.Net.Dials)
	n.S.Pool.Add(addr(7))
	n.S.Pool.PropagateBlock(block())
	vsched.Settle(200 * vsched.Second)
	if len(n.Net.Dials) != k || len(vsched.Live()) > 0 {
		vsched.Fail("after", "there is network activity after the stop: %v", vsched.Live())
	}
	for _, d := range n.Net.Dials {
		if d.At > ended {
			vsched.Fail("dial", "%s is dialled after the run loop returned", d.Addr)
		}
	}
	vsched.Outcome(fmt.Sprintf("dials %d conns %d", len(n.Net.Dials), len(n.Net.Conns)))
}

func main() {
	psim.Main("C23", "A running pool with up to three peers of eleven kinds (reachable, refusing, unreachable, stalling at two points of the handshake, sending it endlessly slowly, coming and going, not reading, talking, sending what gets it banned, of another version) and a limit of one or two connections is stopped at each of several moments, also before it runs and together with a ban, an addition, relaying, gossip or messages. All schedules within the deviation bound of the real code are run; then the run loop and all goroutines must have ended, all connections be closed, and nothing happen any more.", func(thorough bool) (l []psim.Scenario) {
		add := func(s story, q ...vsched.Config) {
			l = append(l, psim.Scenario{Name: s.name(), Body: s.body, Quick: q, Shards: 1,
				Deep: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0), psim.Pts(1, 1), psim.Tim(1, 0)}})
		}
		also := []string{"", "ban", "add", "propagate", "eof", "ping", "gossip"}
		times := []int64{-1, 0, 500, 1000, 1500, 2500, 15000, 35000, 128000}
		add(story{nil, 2, -1, ""}, psim.Cfg(2, 0))
		add(story{nil, 2, 0, ""}, psim.Cfg(2, 0))
		add(story{nil, 1, 2500, ""}, psim.Cfg(2, 0))
		for _, x := range kinds {
			for _, at := range times {
				for _, a := range also {
					if at < 0 && a != "" {
						continue
					}
					q := []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0)}
					if at > 2500 && a != "" {
						q = []vsched.Config{psim.Cfg(1, 0)}
					}
					add(story{[]string{x}, 1, at, a}, q...)
				}
			}
			for _, y := range kinds {
				for limit := 1; limit <= 2; limit++ {
					for _, at := range []int64{0, 500, 1000, 2500, 35000} {
						add(story{[]string{x, y}, limit, at, ""}, psim.Cfg(1, 0))
					}
				}
				for _, z := range kinds {
					if x <= y && y <= z {
						add(story{[]string{x, y, z}, 2, 3500, ""}, psim.Cfg(0, 0))
					}
				}
			}
		}
		return
	})
}
