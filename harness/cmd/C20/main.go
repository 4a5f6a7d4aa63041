// C20: a peer connection ends cleanly under every schedule.
package main

import (
	"errors"
	"fmt"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/p2p"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

const addr = "10.1.0.1:3414"

// world is one connection and everything that uses it.
type world struct {
	p  *p2p.Peer
	c  *vnet.TCPConn
	ts []*vsched.Thread
}

type part struct {
	name string
	f    func(w *world)
}

func ping(i int) *p2p.Ping {
	m := new(p2p.Ping)
	m.Height = uint64(i)
	return m
}

var parts = map[string]part{
	"send":   {"sender", func(w *world) { w.p.WriteMessage(ping(1)) }},
	"send2":  {"sender of two", func(w *world) { w.p.WriteMessage(ping(1)); w.p.SendPing() }},
	"close":  {"closer", func(w *world) { w.p.Close() }},
	"disc":   {"disconnecter", func(w *world) { w.p.Disconnect(errors.New("reason")) }},
	"close2": {"closer twice", func(w *world) { w.p.Close(); w.p.Close() }},
	"wait":   {"waiter", func(w *world) { w.p.WaitForDisconnect(); w.c.Over() }},
	"eof":    {"remote end", func(w *world) { w.c.RemoteClose() }},
	"reset":  {"remote reset", func(w *world) { w.c.RemoteReset() }},
	"ping":   {"remote ping", func(w *world) { w.c.Feed(psim.Ping(3, 3)) }},
	"pings":  {"remote pings", func(w *world) { w.c.Feed(psim.Ping(3, 3)); w.c.Feed(psim.Ping(4, 4)) }},
	"half":   {"remote half message", func(w *world) { w.c.Feed(psim.Ping(3, 3)[:15]); w.c.RemoteClose() }},
	"junk":   {"remote junk", func(w *world) { w.c.Feed([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}) }},
	"bad":    {"remote unexpected message", func(w *world) { w.c.Feed(psim.Frame(psim.TStemTransaction, []byte{1, 2, 3})) }},
	"short":  {"remote malformed message", func(w *world) { w.c.Feed(psim.Frame(psim.TPing, []byte{1, 2, 3})) }},
	"huge":   {"remote oversized message", func(w *world) { w.c.Feed([]byte{0x54, 0x34, 3, 0xff, 0, 0, 0, 0, 0, 0, 0, 0}) }},
	"block":  {"sender of a block", func(w *world) { b := chain.Testnet4; w.p.SendBlock(&b) }},
}

func scenario(name string, plan vnet.Plan, ending bool, use []string) func() {
	return func() {
		n := psim.New(psim.Opt{Addrs: []string{addr}, Plan: func(string, int) vnet.Plan {
			q := plan
			q.In = append([][]byte{psim.Good().Frame()}, plan.In...)
			if plan.Window > 0 {
				q.Window += 150
			}
			return q
		}})
		p, err := p2p.NewPeer(n.S, addr)
		if c := n.Conn(addr); err != nil && (c != nil && c.Failed || vsched.Now() > vsched.Epoch) {
			if c != nil && !c.Closed() {
				vsched.Fail("not closed", "the connection is not closed after a failed handshake")
			}
			vsched.Outcome("failed handshake")
			return
		}
		if err != nil || p == nil {
			vsched.Fail("connect", "the handshake fails: %v", err)
		}
		w := &world{p: p, c: n.Conn(addr)}
		if w.c.Closed() {
			vsched.Fail("connect", "the connection is closed after the handshake")
		}
		w.c.Drain()
		if plan.Window > 0 {
			w.c.Stall(plan.Window)
		}
		p.Start()
		count := map[string]int{}
		for _, u := range use {
			x := parts[u]
			count[u]++
			w.ts = append(w.ts, vsched.Spawn(fmt.Sprintf("%s %d", x.name, count[u]), func() { x.f(w) }))
		}
		vsched.Settle(100 * vsched.Second)
		failed := ending || w.c.Failed
		if !failed {
			// nothing ended the connection: it stays up
			if w.c.Closed() {
				vsched.Fail("closed early", "the connection is closed without a reason")
			}
			for _, t := range w.ts {
				if !t.Done() && t.Name[:6] != "waiter" {
					vsched.Fail("stuck", "%s does not return: %s", t.Name, t.Waiting())
				}
			}
			before := len(psim.After(w.c))
			w.c.Feed(psim.Ping(9, 9))
			vsched.Settle(100 * vsched.Second)
			if !w.c.Failed {
				if len(psim.After(w.c)) != before+1 {
					vsched.Fail("lost", "the connection does not answer any more")
				}
				w.p.Close()
				vsched.Settle(100 * vsched.Second)
			}
		}
		if !w.c.Closed() {
			vsched.Fail("not closed", "the connection is not closed")
		}
		for _, t := range w.ts {
			if !t.Done() {
				vsched.Fail("stuck", "%s does not return: %s", t.Name, t.Waiting())
			}
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("leak", "handlers do not end: %v", l)
		}
		// later use of a connection that has ended
		t := vsched.Spawn("late user", func() {
			w.p.WriteMessage(ping(7))
			w.p.SendPeerRequest(0)
			w.p.Close()
			w.p.Disconnect(nil)
			w.p.WaitForDisconnect()
			w.p.WaitForDisconnect()
		})
		vsched.Settle(100 * vsched.Second)
		if !t.Done() {
			vsched.Fail("late", "use after the end does not return: %s", t.Waiting())
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("leak", "handlers do not end: %v", l)
		}
		vsched.Outcome(fmt.Sprintf("fault %v frames %d", w.c.Failed, len(psim.After(w.c))))
	}
}

// accepted is a connection that the other side opened, used much later.
func accepted(ending string) func() {
	return func() {
		psim.New(psim.Opt{})
		c := vnet.NewConn(addr, vnet.Plan{In: [][]byte{psim.Hand(1)}})
		p, err := p2p.AcceptNewPeer(c)
		if err != nil || p == nil {
			vsched.Outcome("failed handshake")
			return
		}
		c.Drain()
		p.Start()
		for i := 0; i < 3; i++ {
			vsched.SleepFor(100 * vsched.Second)
			vsched.Settle(vsched.Second)
			c.Drain()
			before := len(psim.After(c))
			t := vsched.Spawn("sender", func() { p.WriteMessage(ping(i)) })
			vsched.Settle(100 * vsched.Second)
			if c.Closed() {
				vsched.Fail("closed early", "the accepted connection is closed without a reason")
			}
			if !t.Done() || len(psim.After(c)) != before+1 {
				vsched.Fail("lost", "a message is not sent on an accepted connection: %v", t.Waiting())
			}
		}
		ts := []*vsched.Thread{vsched.Spawn("waiter", func() { p.WaitForDisconnect(); c.Over() }), vsched.Spawn("sender", func() { p.WriteMessage(ping(9)) }), vsched.Spawn("end", func() {
			switch ending {
			case "close":
				p.Close()
			case "eof":
				c.RemoteClose()
			case "reset":
				c.RemoteReset()
			case "short":
				c.Feed(psim.Frame(psim.TPing, []byte{1, 2, 3}))
			}
		})}
		vsched.Settle(100 * vsched.Second)
		if !c.Closed() {
			vsched.Fail("not closed", "the connection is not closed")
		}
		for _, t := range ts {
			if !t.Done() {
				vsched.Fail("stuck", "%s does not return: %s", t.Name, t.Waiting())
			}
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("leak", "handlers do not end: %v", l)
		}
	}
}

func main() {
	psim.Main("C20", "Scenarios are sets of up to five concurrent users of one connection (senders, closers, waiters, remote events, faults of the network); all schedules of the real code within the deviation bound are run, at synchronisation operations and at accesses to shared members; non-trivial are the states with distinct happens-before histories.", func(thorough bool) (l []psim.Scenario) {
		add := func(plan vnet.Plan, label string, ending bool, use ...string) {
			name := label
			for _, u := range use {
				name += " " + u
			}
			l = append(l, psim.Scenario{Name: name, Body: scenario(name, plan, ending, use),
				Quick: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0), psim.Pts(1, 1), psim.Tim(2, 0)},
				Deep:  []vsched.Config{psim.Cfg(4, 0), psim.Cfg(4, 1), psim.Pts(3, 0), psim.Pts(3, 1), psim.Tim(3, 0)}})
		}
		none := vnet.Plan{}
		// every pair and triple of ways to end, with users
		ends := []string{"close", "disc", "close2", "eof", "reset", "half", "junk", "bad", "short", "huge"}
		users := []string{"send", "send2", "wait", "ping", "pings", "block"}
		for _, e := range ends {
			for _, u := range users {
				add(none, "", true, u, e)
				add(none, "", true, u, "wait", e)
			}
			for _, f := range ends {
				if e <= f {
					add(none, "", true, e, f)
					add(none, "", true, "send", "wait", e, f)
				}
			}
			add(none, "", true, "send2", "pings", "wait", e)
			add(none, "", true, "send", "send", "wait", "wait", e)
		}
		for _, u := range users {
			for _, v := range users {
				if u <= v {
					add(none, "", false, u, v)
				}
			}
		}
		for _, e := range []string{"close", "eof", "reset", "short"} {
			l = append(l, psim.Scenario{Name: "accepted " + e, Body: accepted(e),
				Quick: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0), psim.Pts(1, 1)},
				Deep:  []vsched.Config{psim.Cfg(4, 0), psim.Cfg(4, 1), psim.Pts(3, 0), psim.Pts(3, 1)}})
		}
		// faults of the network as decisions
		wf, rf := vnet.Plan{WriteFault: true}, vnet.Plan{ReadFault: true}
		for _, u := range users {
			add(wf, "write faults", false, u, "wait")
			add(rf, "read faults", false, u, "wait")
			add(wf, "write faults", true, u, "wait", "close")
			add(rf, "read faults", true, u, "wait", "close")
		}
		// a remote side that does not read
		st := vnet.Plan{Window: 1}
		for _, e := range []string{"close", "disc", "reset"} {
			add(st, "stalled", true, "send2", "wait", e)
			add(st, "stalled", true, "pings", "wait", e)
			add(st, "stalled", true, "send", "send", "ping", e)
		}
		return
	})
}
