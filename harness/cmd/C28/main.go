// C28: the peer table holds each valid address once, within its limit.
package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/psim"
	"verif/vsched"
	"verif/vsched/vnet"
)

var hosts = map[string]string{"seed.example": "10.3.0.1", "seed6.example": "2001:db8::1"}

// spellings of addresses and what they stand for; "" must not be added.
var spellings = [][2]string{
	{"10.2.0.1:3414", "10.2.0.1:3414"},
	{"[::ffff:10.2.0.1]:3414", "10.2.0.1:3414"},
	{"10.2.0.1:03414", "10.2.0.1:3414"},
	{"10.2.0.1:3415", "10.2.0.1:3415"},
	{"10.2.0.2:3414", "10.2.0.2:3414"},
	{"10.3.0.1:3414", "10.3.0.1:3414"},
	{"seed.example:3414", "10.3.0.1:3414"},
	{"[2001:db8::1]:3414", "[2001:db8::1]:3414"},
	{"[2001:DB8:0:0::1]:3414", "[2001:db8::1]:3414"},
	{"seed6.example:3414", "[2001:db8::1]:3414"},
	{"10.2.0.1:65535", "10.2.0.1:65535"},
	{"224.0.0.1:3414", ""},
	{"239.255.255.255:3414", ""},
	{"232.1.2.3:3414", ""},
	{"[::ffff:224.0.0.1]:3414", ""},
	{"[ff02::1]:3414", ""},
	{"[ff0e::2:1]:3414", ""},
	{"10.2.0.1:0", ""},
	{"10.2.0.1", ""},
	{"10.2.0.1:", ""},
	{"10.2.0.1:65536", ""},
	{"10.2.0.1:-1", ""},
	{"no.such.host:3414", ""},
	{"[2001:db8::1:3414", ""},
	{"2001:db8::1:3414:1", ""},
	{"", ""},
	{":", ""},
}

// canonical names, to look for.
func names() (l []string) {
	seen := map[string]bool{}
	for _, s := range spellings {
		for _, x := range s {
			if x != "" && !seen[x] {
				seen[x] = true
				l = append(l, x)
			}
		}
	}
	return
}

type op struct {
	kind string // add, ban
	addr string
	real string
}

func (o op) String() string { return o.kind + " " + o.addr }

func ops() (l []op) {
	for _, s := range spellings {
		l = append(l, op{"add", s[0], s[1]})
	}
	for _, a := range []string{"10.2.0.1:3414", "10.2.0.2:3414", "10.3.0.1:3414", "[2001:db8::1]:3414", "10.9.9.9:1"} {
		l = append(l, op{"ban", a, a})
	}
	return
}

// table is the model.
type table struct {
	known, banned map[string]bool
	limit         int
}

func (t *table) do(n *psim.Node, o op) {
	if o.kind == "add" {
		n.S.Pool.Add(o.addr)
		if o.real != "" && !t.banned[o.real] && len(t.known) < t.limit {
			t.known[o.real] = true
		}
		return
	}
	n.S.Pool.Ban(o.addr)
	if t.known[o.addr] {
		delete(t.known, o.addr)
		t.banned[o.addr] = true
	} else if b, _ := n.Banned(o.addr); b { // not required, nor forbidden
		t.banned[o.addr] = true
	}
}

func (t *table) check(n *psim.Node, all []string, history func() string) {
	list := n.Listed(0)
	for i := 1; i < len(list); i++ {
		if list[i] == list[i-1] {
			vsched.Fail("twice", "%s is handed out twice after %s", list[i], history())
		}
	}
	for _, a := range list {
		if !t.known[a] {
			vsched.Fail("listed", "%s is handed out after %s", a, history())
		}
	}
	if len(list) < len(t.known) {
		vsched.Fail("listed", "only %v is handed out after %s", list, history())
	}
	for _, a := range all {
		if n.Known(a) != t.known[a] {
			vsched.Fail("known", "%q is known: %v, expected %v, after %s", a, n.Known(a), t.known[a], history())
		}
		if b, known := n.Banned(a); known && b != t.banned[a] {
			vsched.Fail("banned", "%q is banned: %v, expected %v, after %s", a, b, t.banned[a], history())
		}
	}
}

func sequence(limit int, l []op, all []string) {
	n := psim.New(psim.Opt{Hosts: hosts, Table: limit})
	t := &table{map[string]bool{}, map[string]bool{}, 10000}
	if n.Table > 0 {
		t.limit = n.Table
	}
	for i, o := range l {
		t.do(n, o)
		if i == len(l)-1 {
			t.check(n, all, func() string { return fmt.Sprint(l) })
		}
	}
}

// filter is about the state and the capabilities of peers.
func filter(scripts []string) func() {
	return func() {
		vsched.Freeze(true)
		var addrs []string
		for i := range scripts {
			addrs = append(addrs, addr(i))
		}
		n := psim.New(psim.Opt{Addrs: addrs, Plan: func(a string, k int) vnet.Plan {
			for i, s := range scripts {
				if addr(i) != a {
					continue
				}
				switch {
				case s == "failed", s == "gone" && k > 0:
					return vnet.Plan{Refuse: true}
				case s == "gone":
					p := psim.Greet()
					p.EOF = true
					return p
				case strings.HasPrefix(s, "caps "):
					sh := psim.Good()
					fmt.Sscan(s[5:], &sh.Caps)
					return vnet.Plan{In: [][]byte{sh.Frame()}}
				}
			}
			return psim.Greet()
		}})
		n.Start()
		vsched.Settle(int64(2*len(scripts)+4) * vsched.Second)
		var fresh []string
		for i, s := range scripts {
			if s == "banned" {
				n.S.Pool.Ban(addr(i))
			}
		}
		n.S.Stop()
		vsched.Settle(5 * vsched.Second)
		n.S.Pool.Add(addr(50)) // never connected to
		fresh = append(fresh, addr(50))
		for caps := uint32(0); caps < 16; caps++ {
			want := map[string]bool{}
			for i, s := range scripts {
				var c uint32 = 7
				maybe := false
				switch {
				case s == "banned":
					continue
				case s == "failed", s == "gone":
					// stopping may forget that it failed
					maybe = true
					if s == "failed" {
						c = 0
					}
				case strings.HasPrefix(s, "caps "):
					fmt.Sscan(s[5:], &c)
				}
				if c&caps == caps && !maybe {
					want[addr(i)] = true
				}
			}
			if caps == 0 {
				want[addr(50)] = true
			}
			list := n.Listed(caps)
			for _, a := range list {
				ok := want[a]
				for i, s := range scripts {
					ok = ok || addr(i) == a && (s == "gone" && caps&^7 == 0 || s == "failed" && caps == 0)
				}
				if !ok {
					vsched.Fail("filter", "%s is handed out to who asks for capabilities %d", a, caps)
				}
			}
			for a := range want {
				if !psim.Has(list, a) {
					vsched.Fail("filter", "%s is not handed out to who asks for capabilities %d", a, caps)
				}
			}
		}
	}
}

// running checks what is handed out while the pool runs.
func running(scripts []string) func() {
	return func() {
		vsched.Freeze(true)
		var addrs []string
		for i := range scripts {
			addrs = append(addrs, addr(i))
		}
		n := psim.New(psim.Opt{Addrs: addrs, Plan: func(a string, k int) vnet.Plan {
			for i, s := range scripts {
				if addr(i) == a {
					if s == "failed" || s == "gone" && k > 0 {
						return vnet.Plan{Refuse: true}
					}
					if s == "gone" {
						p := psim.Greet()
						p.EOF = true
						return p
					}
				}
			}
			return psim.Greet()
		}})
		n.Start()
		vsched.Settle(int64(3*len(scripts)+4) * vsched.Second)
		for round := 0; round < 2; round++ {
			list := n.Listed(0)
			for i, s := range scripts {
				want := s != "failed" && s != "gone"
				if psim.Has(list, addr(i)) != want {
					vsched.Fail("state", "%s (%s) is handed out: %v", addr(i), s, !want)
				}
			}
			// adding again changes nothing
			type member struct{ st, h, td, caps uint64 }
			before := map[string]member{}
			get := func(a string) (m member) {
				m.st, _ = n.Member(a, "Status")
				m.h, _ = n.Member(a, "Height")
				m.td, _ = n.Member(a, "TotalDifficulty")
				m.caps, _ = n.Member(a, "Capabilities")
				return
			}
			for _, a := range addrs {
				if c := n.Open(a); c != nil {
					c.Feed(psim.Ping(7, 8))
				}
			}
			vsched.Settle(10 * vsched.Millisecond)
			for _, a := range addrs {
				before[a] = get(a)
			}
			dials := len(n.Net.Dials)
			for i, a := range addrs {
				n.S.Pool.Add(a)
				n.S.Pool.Add(strings.Replace(fmt.Sprintf("[::ffff:%s", a), ":3414", "]:3414", 1))
				if get(a) != before[a] {
					vsched.Fail("reset", "adding %s again changes what is known about it (%s)", a, scripts[i])
				}
				if (scripts[i] == "") && n.Open(a) == nil {
					vsched.Fail("reset", "adding %s again ends its connection", a)
				}
			}
			_ = dials
			vsched.Settle(3 * vsched.Second)
		}
	}
}

func addr(i int) string { return fmt.Sprintf("10.4.%d.%d:3414", i/200, i%200+1) }

// big fills the table.
func big(k int, failing int) func() {
	return func() {
		vsched.Freeze(true)
		n := psim.New(psim.Opt{Hosts: hosts, Plan: func(a string, _ int) vnet.Plan { return vnet.Plan{Refuse: true} }})
		if failing > 0 {
			for i := 0; i < failing; i++ {
				n.S.Pool.Add(addr(i))
			}
			n.Start()
			vsched.Settle(int64(failing+2) * vsched.Second)
			n.S.Stop()
		}
		for i := failing; i < k+failing; i++ {
			n.S.Pool.Add(addr(i))
		}
		n.S.Pool.Add(":3414")
		list := n.Listed(0)
		want := k
		if want > 256 {
			want = 256
		}
		if len(list) != want {
			vsched.Fail("count", "%d addresses are handed out of %d", len(list), k)
		}
		for i := range list {
			if i > 0 && list[i] == list[i-1] {
				vsched.Fail("twice", "%s is handed out twice", list[i])
			}
			if !n.Known(list[i]) {
				vsched.Fail("unknown", "%s is handed out, but not known", list[i])
			}
		}
	}
}

// full reaches the limit of the table.
func full(limit int) func() {
	return func() {
		vsched.Freeze(true)
		n := psim.New(psim.Opt{Table: limit})
		lim := 10000
		if n.Table > 0 {
			lim = n.Table
		} else if limit > 0 {
			return
		}
		name := func(i int) string { return fmt.Sprintf("10.%d.%d.%d:3414", 5+i/40000, i/200%200, i%200+1) }
		for i := 0; i < lim+3; i++ {
			n.S.Pool.Add(name(i))
			if i%1000 == 0 {
				n.S.Pool.Add(name(i / 2)) // known already
			}
		}
		count := func() (k int) {
			for i := 0; i < lim+20; i++ {
				if n.Known(name(i)) {
					k++
				}
			}
			return
		}
		if k := count(); k != lim {
			vsched.Fail("limit", "%d addresses are known, the limit is %d", k, lim)
		}
		n.S.Pool.Ban(name(lim - 1))
		if k := count(); k != lim-1 {
			vsched.Fail("limit", "%d addresses are known after a ban, expected %d", k, lim-1)
		}
		for i := lim + 3; i < lim+6; i++ {
			n.S.Pool.Add(name(i))
		}
		if k := count(); k != lim {
			vsched.Fail("limit", "%d addresses are known, the limit is %d", k, lim)
		}
		if lim > 2 && !(n.Known(name(0)) && n.Known(name(1))) {
			vsched.Fail("forgot", "a known address was forgotten")
		}
	}
}

// busy reaches the limit of the table while peers are connected, gone and failed.
func busy(limit int, scripts []string) func() {
	return func() {
		vsched.Freeze(true)
		n := psim.New(psim.Opt{Table: limit, Plan: func(a string, k int) vnet.Plan {
			for i, s := range scripts {
				if addr(i) == a {
					if s == "failed" || s == "gone" && k > 0 {
						return vnet.Plan{Refuse: true}
					}
					if s == "gone" {
						p := psim.Greet()
						p.EOF = true
						return p
					}
				}
			}
			return psim.Greet()
		}})
		if n.Table == 0 {
			return
		}
		for i := range scripts {
			n.S.Pool.Add(addr(i))
		}
		n.Start()
		vsched.Settle(int64(3*len(scripts)+4) * vsched.Second)
		count := func() (k int) {
			for i := 0; i < len(scripts)+limit+5; i++ {
				if n.Known(addr(i)) {
					k++
				}
			}
			return
		}
		for round := 0; round < 2; round++ {
			for i := len(scripts); i < len(scripts)+limit+2; i++ {
				n.S.Pool.Add(addr(i))
				if k := count(); k > limit {
					vsched.Fail("limit", "%d addresses are known, the limit is %d", k, limit)
				}
			}
			if k := count(); k != limit {
				vsched.Fail("limit", "%d addresses are known, expected %d", k, limit)
			}
			for i := 0; i < len(scripts) && i < limit; i++ {
				if !n.Known(addr(i)) {
					vsched.Fail("forgot", "%s (%s) was forgotten", addr(i), scripts[i])
				}
			}
			vsched.Settle(5 * vsched.Second)
		}
	}
}

// concurrent additions and bans.
func concurrent(limit int, threads [][]op, gossip bool) func() {
	return func() {
		n := psim.New(psim.Opt{Table: limit, Hosts: hosts})
		if n.Table == 0 {
			return
		}
		n.S.Pool.Add("10.2.0.9:3414")
		ever := map[string]bool{"10.2.0.9:3414": true}
		banned := map[string]bool{}
		for i, l := range threads {
			l := l
			for _, o := range l {
				if o.kind == "add" && o.real != "" {
					ever[o.real] = true
				}
				if o.kind == "ban" {
					banned[o.addr] = true
				}
			}
			vsched.Spawn(fmt.Sprint("user ", i), func() {
				for _, o := range l {
					if o.kind == "add" {
						n.S.Pool.Add(o.addr)
					} else if o.kind == "list" {
						n.Listed(0)
					} else {
						n.S.Pool.Ban(o.addr)
					}
				}
			})
		}
		vsched.Settle(10 * vsched.Second)
		k := 0
		for a := range ever {
			b, _ := n.Banned(a)
			if n.Known(a) {
				k++
				if b {
					vsched.Fail("banned", "%s is banned, but in the table", a)
				}
			} else if !banned[a] && len(ever)+1 <= limit {
				vsched.Fail("lost", "%s is not known", a)
			}
		}
		if k > limit {
			vsched.Fail("limit", "%d addresses are known, the limit is %d", k, limit)
		}
		want := limit
		if len(ever)-len(banned) < want {
			want = len(ever) - len(banned)
		}
		if len(banned) == 0 && k != want {
			vsched.Fail("lost", "%d addresses are known, expected %d", k, want)
		}
		list := n.Listed(0)
		sort.Strings(list)
		for i := 1; i < len(list); i++ {
			if list[i] == list[i-1] {
				vsched.Fail("twice", "%s is handed out twice", list[i])
			}
		}
		if len(list) != k {
			vsched.Fail("listed", "%d of %d addresses are handed out", len(list), k)
		}
		vsched.Outcome(fmt.Sprint(list))
	}
}

func main() {
	psim.Main("C28", "All sequences of up to three (thorough: four) additions and bans over 24 spellings of addresses and five banned ones, with table limits of one to three and the real one, checked against a model of the table after each; all combinations of peer states and capabilities against all capability requests; lists around 256 and tables around the limit; schedules of concurrent additions, bans and lists within the deviation bound.", func(thorough bool) (l []psim.Scenario) {
		all := append(names(), ":3414", "10.9.9.9:1")
		o := ops()
		zero := psim.Cfg(0, 0)
		for _, limit := range []int{0, 1, 2, 3} {
			limit := limit
			for _, x := range o {
				x := x
				l = append(l, psim.Scenario{Name: fmt.Sprintf("limit %d %v", limit, x), Quick: []vsched.Config{zero}, Body: func() {
					vsched.Freeze(true)
					sequence(limit, []op{x}, all)
				}})
				for _, y := range o {
					y := y
					l = append(l, psim.Scenario{Name: fmt.Sprintf("limit %d %v, %v", limit, x, y), Quick: []vsched.Config{zero}, Body: func() {
						vsched.Freeze(true)
						sequence(limit, []op{x, y}, all)
						for _, z := range o {
							sequence(limit, []op{x, y, z}, all)
						}
					}})
					if thorough && limit != 3 {
						for _, z := range o {
							z := z
							l = append(l, psim.Scenario{Name: fmt.Sprintf("limit %d %v, %v, %v", limit, x, y, z), Quick: []vsched.Config{zero}, Body: func() {
								vsched.Freeze(true)
								for _, u := range o {
									sequence(limit, []op{x, y, z, u}, all)
								}
							}})
						}
					}
				}
			}
		}
		kinds := []string{"caps 0", "caps 1", "caps 2", "caps 3", "caps 7", "caps 15", "failed", "gone", "banned"}
		for _, x := range kinds {
			for _, y := range kinds {
				for _, z := range kinds {
					l = append(l, psim.Scenario{Name: fmt.Sprintf("filter %s, %s, %s", x, y, z), Body: filter([]string{x, y, z}), Quick: []vsched.Config{zero}})
				}
			}
		}
		for _, x := range []string{"", "failed", "gone"} {
			for _, y := range []string{"", "failed", "gone"} {
				l = append(l, psim.Scenario{Name: fmt.Sprintf("running %s, %s", x, y), Body: running([]string{x, y}), Quick: []vsched.Config{zero}})
			}
		}
		for _, k := range []int{0, 1, 255, 256, 257, 300, 600} {
			for _, f := range []int{0, 2, 20} {
				l = append(l, psim.Scenario{Name: fmt.Sprintf("list %d, %d", k, f), Body: big(k, f), Quick: []vsched.Config{zero}, Shards: 1})
			}
		}
		for _, k := range []int{0, 1, 2, 50, 256, 257} {
			l = append(l, psim.Scenario{Name: fmt.Sprintf("full %d", k), Body: full(k), Quick: []vsched.Config{{MaxSteps: 1000000}}})
		}
		for _, x := range []string{"", "failed", "gone"} {
			for _, y := range []string{"", "failed", "gone"} {
				for limit := 1; limit <= 4; limit++ {
					l = append(l, psim.Scenario{Name: fmt.Sprintf("busy %d %s, %s", limit, x, y), Body: busy(limit, []string{x, y}), Quick: []vsched.Config{zero}})
				}
			}
		}
		add := func(a string) op { return op{"add", a, a} }
		ban := func(a string) op { return op{"ban", a, a} }
		A, B, C := "10.2.0.1:3414", "10.2.0.2:3414", "10.3.0.1:3414"
		mapped := op{"add", "[::ffff:10.2.0.1]:3414", A}
		seed := op{"add", "seed.example:3414", C}
		list := op{"list", "", ""}
		progs := [][]op{{add(A)}, {mapped}, {add(A), add(B)}, {add(B), add(A)}, {seed}, {add(C), seed}, {ban(A)}, {ban(A), add(A)}, {add(A), ban(A)}, {list}, {list, add(C)}, {ban("10.2.0.9:3414"), add(B)}}
		for _, limit := range []int{1, 2, 3, 9} {
			for i, x := range progs {
				for j, y := range progs {
					if j < i {
						continue
					}
					l = append(l, psim.Scenario{Name: fmt.Sprintf("limit %d, %v | %v", limit, x, y), Body: concurrent(limit, [][]op{x, y}, false),
						Quick: []vsched.Config{psim.Cfg(3, 0), psim.Cfg(3, 1), psim.Pts(2, 0)}, Deep: []vsched.Config{psim.Cfg(6, 0), psim.Cfg(6, 1), psim.Pts(4, 0), psim.Pts(4, 1)}})
					if limit == 2 {
						for _, z := range progs {
							l = append(l, psim.Scenario{Name: fmt.Sprintf("limit %d, %v | %v | %v", limit, x, y, z), Body: concurrent(limit, [][]op{x, y, z}, false),
								Quick: []vsched.Config{psim.Cfg(2, 0)}, Deep: []vsched.Config{psim.Cfg(4, 0), psim.Cfg(4, 1), psim.Pts(2, 0)}})
						}
					}
				}
			}
		}
		return
	})
}
