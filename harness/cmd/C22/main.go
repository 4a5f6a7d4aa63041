// C22: connection slots are never lost nor exceeded.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

// outcomes of one attempt to connect.
var outcomes = []string{"refuse", "hang", "stall", "junk", "version", "genesis", "cut", "eof", "bye", "reset", "banned"}

func plan(o string) (p vnet.Plan) {
	sh := psim.Good()
	switch o {
	case "refuse":
		return vnet.Plan{Refuse: true}
	case "hang": // no answer to the dial
		return vnet.Plan{Hang: true}
	case "stall": // no answer to the hand
		return vnet.Plan{}
	case "drip": // an endless answer
		f := sh.Frame()[:11+16]
		binary.BigEndian.PutUint64(f[3:], 16000000)
		return vnet.Plan{In: [][]byte{append(f, 0, 0, 0, 0, 0, 200, 0, 0)}, Drip: 10 * vsched.Second}
	case "junk":
		return vnet.Plan{In: [][]byte{[]byte("HTTP/1.1 400 Bad Request\r\n\r\n")}}
	case "version":
		sh.Version = 2
		return vnet.Plan{In: [][]byte{sh.Frame()}}
	case "genesis":
		sh.Genesis[5] ^= 1
		return vnet.Plan{In: [][]byte{sh.Frame()}}
	case "cut":
		f := sh.Frame()
		return vnet.Plan{In: [][]byte{f[:len(f)-3]}, EOF: true}
	case "eof": // ends right after the handshake
		p = psim.Greet()
		p.EOF = true
		return p
	case "bye": // ends after a while
		p = psim.Greet(psim.Ping(1, 1))
		p.OnWrite = func(c *vnet.TCPConn, b []byte) {
			if l, _, _ := psim.Frames(c.Out); len(l) >= 3 {
				c.FeedNow(psim.Frame(psim.TStemTransaction, []byte{1}))
			}
		}
		return p
	case "reset":
		return psim.Greet([]byte{0x54, 0x34, 3, 0xff, 0, 0, 0, 0, 0, 0, 0})
	case "banned":
		h := chain.Testnet4.Header
		return psim.Greet(psim.Frame(psim.THeaders, append([]byte{0, 1}, h.Bytes()...)))
	}
	return psim.Greet()
}

type story struct {
	limit   int
	scripts [][]string // per peer, the first attempts
	late    bool       // the last peer becomes known later
}

func addr(i int) string { return fmt.Sprintf("10.1.0.%d:3414", i+1) }

func (s story) name() string {
	var l []string
	for _, x := range s.scripts {
		l = append(l, strings.Join(x, "+"))
	}
	return fmt.Sprintf("limit %d [%s] late %v", s.limit, strings.Join(l, " | "), s.late)
}

func (s story) body() {
	var addrs []string
	for i := range s.scripts {
		if !s.late || i < len(s.scripts)-1 {
			addrs = append(addrs, addr(i))
		}
	}
	n := psim.New(psim.Opt{Addrs: addrs, Limit: s.limit, Plan: func(a string, k int) vnet.Plan {
		for i, x := range s.scripts {
			if addr(i) == a && k < len(x) {
				return plan(x[k])
			}
		}
		return plan("ok")
	}})
	n.Chain.BadHdr = func([]consensus.BlockHeader) error { return errors.New("bad headers") }
	n.Start()
	if s.late {
		vsched.Settle(3 * vsched.Second)
		vsched.Spawn("add", func() { n.S.Pool.Add(addr(len(s.scripts) - 1)) })
	}
	isBanned := func(i int) bool {
		// the headers that ban it were read
		for _, x := range s.scripts[i] {
			if x == "banned" {
				return true
			}
		}
		return false
	}
	want := 0
	for i := range s.scripts {
		if !isBanned(i) {
			want++
		}
	}
	if want > n.Limit {
		want = n.Limit
	}
	open := func() (k int) {
		for i := range s.scripts {
			if n.Open(addr(i)) != nil {
				k++
			}
		}
		return
	}
	up := func(what string) {
		// long enough for every attempt of the scripts
		done := func() bool { return open() == want && settled(n, s, isBanned) }
		if !psim.Until(1200*vsched.Second, done) {
			var l []string
			for i := range s.scripts {
				st, _ := n.Member(addr(i), "Status")
				l = append(l, fmt.Sprintf("%s open %v status %d", addr(i), n.Open(addr(i)) != nil, st))
			}
			vsched.Fail("lost "+what, "%s only %d of %d connections are up: %v; %v", what, open(), want, l, vsched.Live())
		}
	}
	up("at the start")
	s.lists(n, isBanned)
	// end all connections at once: they come up again
	var cs []*vnet.TCPConn
	for i := range s.scripts {
		if c := n.Open(addr(i)); c != nil {
			cs = append(cs, c)
		}
	}
	for _, c := range cs {
		c.RemoteClose()
	}
	vsched.Settle(vsched.Second / 2)
	up("after all ended")
	s.lists(n, isBanned)
	vsched.Outcome(fmt.Sprintf("dials %d", len(n.Net.Dials)))
}

// lists checks that what the pool says of its connections is true.
func (s story) lists(n *psim.Node, isBanned func(int) bool) {
	vsched.Settle(vsched.Second / 10)
	l, known := n.Connected()
	for i := range s.scripts {
		c := n.Open(addr(i))
		if c != nil && len(psim.After(c)) < 2 {
			continue // being connected
		}
		if known && (c != nil) != psim.Has(l, addr(i)) {
			vsched.Fail("listed", "%s has a connection: %v, but the list of connected peers is %v", addr(i), c != nil, l)
		}
		if st, known := n.Member(addr(i), "Status"); known && c != nil && st != 1 {
			vsched.Fail("status", "%s has a connection, but its status is %d", addr(i), st)
		}
		if !isBanned(i) && c != nil && !psim.Has(n.Listed(7), addr(i)) {
			vsched.Fail("listed", "%s is connected, but not handed out", addr(i))
		}
	}
}

// again ends the connections of k peers at the moment the pool looks for new
// ones, d before or after it.
func again(k, limit int, d int64, how string) func() {
	return func() {
		vsched.Freeze(true)
		s := story{limit: limit, scripts: make([][]string, k)}
		var addrs []string
		for i := 0; i < k; i++ {
			addrs = append(addrs, addr(i))
		}
		n := psim.New(psim.Opt{Addrs: addrs, Limit: limit})
		begin := vsched.Now()
		n.Start()
		vsched.SleepFor(begin + 10*vsched.Second + d - vsched.Now())
		var cs []*vnet.TCPConn
		for i := 0; i < k; i++ {
			if c := n.Open(addr(i)); c != nil {
				cs = append(cs, c)
			}
		}
		want := k
		if limit < k {
			want = limit
		}
		if len(cs) != want {
			vsched.Fail("lost at the start", "only %d of %d connections are up", len(cs), want)
		}
		vsched.Freeze(false)
		for _, c := range cs {
			switch how {
			case "close":
				c.RemoteClose()
			case "reset":
				c.RemoteReset()
			case "junk":
				c.Feed(psim.Frame(psim.TStemTransaction, []byte{1}))
			}
		}
		vsched.SleepFor(5 * vsched.Millisecond)
		vsched.Settle(vsched.Second / 10)
		vsched.Freeze(true)
		if !psim.Until(60*vsched.Second, func() bool {
			j := 0
			for i := 0; i < k; i++ {
				if n.Open(addr(i)) != nil {
					j++
				}
			}
			return j == want
		}) {
			vsched.Fail("lost again", "the %d connections do not come up again: %v", want, vsched.Live())
		}
		s.lists(n, func(int) bool { return false })
		vsched.Outcome(fmt.Sprintf("dials %d", len(n.Net.Dials)))
	}
}

// settled tells that the connections that are open are not going to end.
func settled(n *psim.Node, s story, isBanned func(int) bool) bool {
	count := map[string]int{}
	for _, d := range n.Net.Dials {
		count[d.Addr]++
	}
	free := len(s.scripts) <= n.Limit
	for i, x := range s.scripts {
		c := n.Open(addr(i))
		if isBanned(i) {
			if c != nil {
				return false
			}
			continue
		}
		if c != nil && count[addr(i)] <= len(x) {
			return false
		}
		if c == nil && free {
			return false
		}
		if c != nil {
			if l := psim.After(c); len(l) < 2 {
				return false
			}
		}
	}
	return true
}

// many has more peers than slots of the limit of the code itself.
func many(k int) func() {
	return func() {
		var addrs []string
		for i := 0; i < k; i++ {
			addrs = append(addrs, addr(i))
		}
		n := psim.New(psim.Opt{Addrs: addrs})
		n.Start()
		want := n.Limit
		if k < want {
			want = k
		}
		open := func() (l []*vnet.TCPConn) {
			for i := 0; i < k; i++ {
				if c := n.Open(addr(i)); c != nil {
					l = append(l, c)
				}
			}
			return
		}
		for round := 0; round < 3; round++ {
			if !psim.Until(60*vsched.Second, func() bool { return len(open()) == want }) {
				vsched.Fail("lost", "only %d of %d connections are up (round %d)", len(open()), want, round)
			}
			vsched.Settle(3 * vsched.Second)
			for i, c := range open() {
				if i%(round+1) == 0 {
					c.RemoteClose()
				}
			}
			vsched.Settle(vsched.Second / 2)
		}
	}
}

// worn lets more peers than slots end in the same way, several times; one that
// becomes known afterwards is connected as if nothing had happened, and so are
// as many as there are slots.
func worn(o string, limit int) func() {
	return func() {
		vsched.Freeze(true)
		bad := limit + 3
		var addrs []string
		for i := 0; i < bad; i++ {
			addrs = append(addrs, addr(i))
		}
		n := psim.New(psim.Opt{Addrs: addrs, Limit: limit, Plan: func(a string, k int) vnet.Plan {
			for i := 0; i < bad; i++ {
				if addr(i) == a {
					return plan(o)
				}
			}
			return plan("ok")
		}})
		n.Chain.BadHdr = func([]consensus.BlockHeader) error { return errors.New("bad headers") }
		n.Start()
		// every attempt takes at most a dial and a handshake of a few minutes
		for tries := 0; tries < 400 && len(n.Net.Dials) < 3*bad; tries++ {
			before := len(n.Net.Dials)
			vsched.Settle(20 * vsched.Second)
			if o == "banned" && len(n.Net.Dials) == before && len(n.Net.Dials) >= bad {
				break
			}
		}
		if min := 3 * bad; o != "banned" && len(n.Net.Dials) < min || len(n.Net.Dials) < bad {
			vsched.Fail("lost", "only %d attempts were made with %d peers that end by %s", len(n.Net.Dials), bad, o)
		}
		if o != "banned" {
			for i := 0; i < bad; i++ {
				n.S.Pool.Ban(addr(i))
			}
		}
		for i := bad; i < bad+limit; i++ {
			n.S.Pool.Add(addr(i))
		}
		open := func() (k int) {
			for i := bad; i < bad+limit; i++ {
				if n.Open(addr(i)) != nil {
					k++
				}
			}
			return
		}
		if !psim.Until(1200*vsched.Second, func() bool { return open() == limit }) {
			vsched.Fail("worn", "after %d attempts that ended by %s only %d of %d connections are up", len(n.Net.Dials), o, open(), limit)
		}
		vsched.Settle(10 * vsched.Second)
		l, known := n.Connected()
		for i := bad; i < bad+limit; i++ {
			if known && !psim.Has(l, addr(i)) {
				vsched.Fail("listed", "%s has a connection, but the list of connected peers is %v", addr(i), l)
			}
		}
	}
}

func main() {
	psim.Main("C22", "A pool with up to three peers and a limit of one to three connections; each peer's first attempts end in one of eleven ways (all sequences of up to two per peer), after which it is reachable; peers may become known late. All schedules within the deviation bound of the real code are run for the shorter ones; the connections must reach the possible number again after every history, and never exceed the limit.", func(thorough bool) (l []psim.Scenario) {
		add := func(s story, q ...vsched.Config) {
			l = append(l, psim.Scenario{Name: s.name(), Body: s.body, Quick: q,
				Deep: []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0), psim.Pts(1, 1)}})
		}
		var seqs [][]string
		seqs = append(seqs, nil)
		for _, a := range outcomes {
			seqs = append(seqs, []string{a})
		}
		for _, a := range outcomes {
			for _, b := range outcomes {
				if a != "banned" {
					seqs = append(seqs, []string{a, b})
				}
			}
		}
		for _, x := range seqs {
			for _, y := range seqs {
				for limit := 1; limit <= 3; limit++ {
					q := []vsched.Config{psim.Cfg(0, 0)}
					if len(x)+len(y) <= 1 {
						q = []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1), psim.Pts(1, 0), psim.Pts(1, 1)}
					} else if len(x)+len(y) <= 2 {
						q = []vsched.Config{psim.Cfg(1, 0), psim.Pts(1, 0)}
					}
					add(story{limit, [][]string{x, y}, false}, q...)
					if len(x)+len(y) <= 2 {
						add(story{limit, [][]string{x, y}, true}, psim.Cfg(1, 0))
					}
				}
			}
		}
		for _, a := range outcomes {
			for _, b := range outcomes {
				for _, c := range outcomes {
					add(story{2, [][]string{{a}, {b}, {c}}, false}, psim.Cfg(0, 0))
				}
			}
		}
		for limit := 1; limit <= 2; limit++ {
			for _, y := range append([]string{"", "drip"}, outcomes...) {
				var second []string
				if y != "" {
					second = []string{y}
				}
				add(story{limit, [][]string{{"drip"}, second}, false}, psim.Cfg(1, 0))
			}
		}
		for _, o := range append([]string{"drip"}, outcomes...) {
			for limit := 1; limit <= 4; limit++ {
				l = append(l, psim.Scenario{Name: fmt.Sprintf("worn by %s limit %d", o, limit), Body: worn(o, limit), Quick: []vsched.Config{{MaxSteps: 100000}}})
			}
		}
		for _, k := range []int{1, 14, 15, 16, 17, 31} {
			l = append(l, psim.Scenario{Name: fmt.Sprintf("%d peers, default limit", k), Body: many(k), Quick: []vsched.Config{psim.Cfg(0, 0), psim.Cfg(0, 1)},
				Deep: []vsched.Config{psim.Cfg(1, 0)}})
		}
		for k := 1; k <= 3; k++ {
			for limit := 1; limit <= 3; limit++ {
				for _, how := range []string{"close", "reset", "junk"} {
					for _, d := range []int64{-1, 0, 1} {
						q := []vsched.Config{psim.Cfg(2, 0), psim.Cfg(1, 1)}
						if d == 0 && k < 3 {
							q = []vsched.Config{psim.Cfg(3, 0), psim.Cfg(2, 1), psim.Pts(2, 0), psim.Pts(1, 1)}
						}
						l = append(l, psim.Scenario{Name: fmt.Sprintf("%d peers limit %d %s at %d", k, limit, how, d), Body: again(k, limit, d, how), Quick: q, Shards: 1,
							Deep: []vsched.Config{psim.Cfg(4, 0), psim.Cfg(3, 1), psim.Pts(3, 0), psim.Pts(2, 1)}})
					}
				}
			}
		}
		return
	})
}
