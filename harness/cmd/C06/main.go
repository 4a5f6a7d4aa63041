// C06: network messages and addresses survive serialisation unchanged.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"reflect"
	"strings"

	"verif/conv"
	"verif/fix"
	"verif/hv"
	"verif/ref"
	"verif/rt"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
)

var c *hv.Ctx

func main() {
	hv.Main("C06", "exploration", "every kind of message with every pair of boundary values of its members; header lists and locators of every length up to the limits; address lists of every length 0..256 and single addresses with each bit of the address and port set, both families; error texts of boundary lengths. Each is compared byte by byte with an independent encoding, read back whole, by single bytes and in odd chunks, and sent through WriteMessage and ReadMessage. Every case is non-trivial (members differ from each other).", run)
}

func be(vs ...interface{}) []byte {
	var w bytes.Buffer
	for _, v := range vs {
		if b, ok := v.([]byte); ok {
			w.Write(b)
			continue
		}
		if err := binary.Write(&w, binary.BigEndian, v); err != nil {
			panic(err)
		}
	}
	return w.Bytes()
}

// msg checks the object alone and inside a frame.
func msg(kind string, typ uint8, obj, fresh func() p2p.Message, eq func(x p2p.Message) error, want []byte) {
	rt.Roundtrip(c, kind, func() rt.Codec { return obj() }, func() rt.Codec { return fresh() }, func(x rt.Codec) error { return eq(x.(p2p.Message)) }, want)
	frame := append(be([]byte{0x54, 0x34}, typ, uint64(len(want))), want...)
	var w bytes.Buffer
	var n uint64
	var err error
	if p := c.Do(func() string { return kind }, func() { n, err = p2p.WriteMessage(&w, obj()) }); p != nil || err != nil {
		c.Violate(kind+"/frame", fmt.Sprintf("%s: writing the message fails: %v %v", kind, p, err), nil)
		return
	}
	if !bytes.Equal(w.Bytes(), frame) || n != uint64(len(frame)) {
		c.Violate(kind+"/frame bytes", fmt.Sprintf("%s: frame is %.200x (reported %d), want %.200x", kind, w.Bytes(), n, frame), fmt.Sprintf("%.2000x", frame))
		return
	}
	x := fresh()
	r := bytes.NewReader(append(frame, 1, 2, 3))
	if p := c.Do(func() string { return kind }, func() { n, err = p2p.ReadMessage(r, x) }); p != nil || err != nil || n != uint64(len(frame)) || r.Len() != 3 {
		c.Violate(kind+"/frame read", fmt.Sprintf("%s: reading the frame: panic %v, error %v, count %d, left %d", kind, p, err, n, r.Len()), fmt.Sprintf("%.2000x", frame))
		return
	}
	if err := eq(x); err != nil {
		c.Violate(kind+"/frame content", fmt.Sprintf("%s: message read from its frame differs: %v", kind, err), fmt.Sprintf("%.2000x", frame))
	}
	if x.Type() != typ {
		c.Violate(kind+"/type", fmt.Sprintf("%s has type %d, want %d", kind, x.Type(), typ), nil)
	}
}

func run(ctx *hv.Ctx) {
	c = ctx
	rec := ref.ParseBlock(fix.Block65927())
	var u64s []uint64
	for b := uint(0); b < 64; b++ {
		u64s = append(u64s, 1<<b, 1<<b-1, ^(uint64(1) << b))
	}
	u64s = append(u64s, 1<<64-1)

	c.Par(len(u64s), func(i int) {
		for _, h := range u64s {
			d := u64s[i]
			want := be(d, h)
			msg("ping", 3, func() p2p.Message { return &p2p.Ping{TotalDifficulty: consensus.Difficulty(d), Height: h} }, func() p2p.Message { return new(p2p.Ping) },
				func(x p2p.Message) error {
					if p := x.(*p2p.Ping); uint64(p.TotalDifficulty) != d || p.Height != h {
						return fmt.Errorf("%+v", p)
					}
					return nil
				}, want)
			msg("pong", 4, func() p2p.Message {
				return &p2p.Pong{Ping: p2p.Ping{TotalDifficulty: consensus.Difficulty(d), Height: h}}
			}, func() p2p.Message { return new(p2p.Pong) },
				func(x p2p.Message) error {
					if p := x.(*p2p.Pong); uint64(p.TotalDifficulty) != d || p.Height != h {
						return fmt.Errorf("%+v", p)
					}
					return nil
				}, want)
		}
		v := uint32(u64s[i]) ^ uint32(u64s[i]>>32)
		msg("address request", 5, func() p2p.Message { return &p2p.GetPeerAddrs{Capabilities: consensus.Capabilities(v)} }, func() p2p.Message { return new(p2p.GetPeerAddrs) },
			func(x p2p.Message) error {
				if p := x.(*p2p.GetPeerAddrs); uint32(p.Capabilities) != v {
					return fmt.Errorf("%+v", p)
				}
				return nil
			}, be(v))
		for _, n := range []int{0, 1, 2, 255, 256, 257, 4095, 4096, 65536} {
			if n > 5000 && i > 3 {
				continue
			}
			text := make([]byte, n)
			for j := range text {
				text[j] = byte(j + i)
			}
			errMsg(v, fmt.Sprintf("error/%d", n), string(text))
		}
	})
	// every pair of bytes, and characters of every length at every position
	c.Par(1<<16, func(i int) { errMsg(uint32(i), "error/pair", string([]byte{byte(i >> 8), byte(i)})) })
	for _, ch := range []string{"\u00e9", "\u07ff", "\u0800", "\u65e5", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "\xff", "\x00", "\r\n", "\u0301", "\u200b", "%d", "\ufeff"} {
		for a := 0; a <= 20; a++ {
			for b := 0; b <= 20; b++ {
				errMsg(uint32(a*b), "error/text", strings.Repeat("x", a)+ch+strings.Repeat(" ", b))
			}
		}
		for n := 2; n < 300; n++ {
			errMsg(1, "error/text", strings.Repeat(ch, n))
		}
	}

	// hashes: each bit
	for b := 0; b < 256; b++ {
		h := make([]byte, 32)
		for i := range h {
			h[i] = byte(i)
		}
		h[b/8] ^= 1 << uint(b%8)
		msg("block request", 10, func() p2p.Message { return &p2p.GetBlock{Hash: append([]byte(nil), h...)} }, func() p2p.Message { return new(p2p.GetBlock) },
			func(x p2p.Message) error {
				if p := x.(*p2p.GetBlock); !bytes.Equal(p.Hash, h) {
					return fmt.Errorf("%x", []byte(p.Hash))
				}
				return nil
			}, h)
	}
	for n := 0; n <= 14; n++ {
		want := []byte{byte(n)}
		var hs []consensus.Hash
		for i := 0; i < n; i++ {
			h := bytes.Repeat([]byte{byte(i), byte(n)}, 16)
			hs = append(hs, h)
			want = append(want, h...)
		}
		msg(fmt.Sprintf("header request/%d", n), 7, func() p2p.Message {
			return &p2p.GetBlockHeaders{Locator: consensus.Locator{Hashes: append([]consensus.Hash(nil), hs...)}}
		}, func() p2p.Message { return new(p2p.GetBlockHeaders) }, func(x p2p.Message) error {
			l := x.(*p2p.GetBlockHeaders).Locator.Hashes
			if len(l) != n {
				return fmt.Errorf("%d hashes", len(l))
			}
			for i := range l {
				if !bytes.Equal(l[i], hs[i]) {
					return fmt.Errorf("hash %d is %x", i, []byte(l[i]))
				}
			}
			return nil
		}, want)
	}

	// headers
	mk := func(i int) *ref.Header {
		h := *rec.Head
		h.Height = uint64(i) * 0x0101010101
		h.Nonce = uint64(i)
		h.Previous[i%32] ^= byte(i)
		if i%3 == 1 {
			h.EdgeBits = 30 + uint8(i%2)
		}
		return &h
	}
	for i := 0; i < 64; i++ {
		h := mk(i)
		msg("header", 8, func() p2p.Message { return &p2p.BlockHeader{Header: conv.Header(h)} }, func() p2p.Message { return new(p2p.BlockHeader) },
			func(x p2p.Message) error { return conv.EqHeader(&x.(*p2p.BlockHeader).Header, h) }, h.Bytes())
	}
	c.Par(513, func(n int) {
		if !c.Thorough && n > 20 && n < 510 && n%64 > 1 && n%64 < 63 {
			return
		}
		want := be(uint16(n))
		for i := 0; i < n; i++ {
			want = append(want, mk(i).Bytes()...)
		}
		msg(fmt.Sprintf("headers/%d", n), 9, func() p2p.Message {
			l := new(p2p.BlockHeaders)
			for i := 0; i < n; i++ {
				l.Headers = append(l.Headers, conv.Header(mk(i)))
			}
			return l
		}, func() p2p.Message { return new(p2p.BlockHeaders) }, func(x p2p.Message) error {
			l := x.(*p2p.BlockHeaders).Headers
			if len(l) != n {
				return fmt.Errorf("%d headers", len(l))
			}
			for i := range l {
				if err := conv.EqHeader(&l[i], mk(i)); err != nil {
					return fmt.Errorf("header %d: %v", i, err)
				}
			}
			return nil
		}, want)
	})

	// addresses: lists are made by reading their bytes
	addr := func(ip net.IP, port int) []byte {
		if v4 := ip.To4(); v4 != nil {
			return be(uint8(0), []byte(v4), uint16(port))
		}
		return be(uint8(1), []byte(ip.To16()), uint16(port))
	}
	addrs := func(kind string, list []byte, n int) {
		want := append(be(uint32(n)), list...)
		obj := func() p2p.Message {
			x := new(p2p.PeerAddrs)
			if err := x.Read(bytes.NewReader(want)); err != nil {
				c.Violate(kind+"/read", kind+": an address list cannot be read: "+err.Error(), fmt.Sprintf("%.2000x", want))
			}
			return x
		}
		eq := func(x p2p.Message) error {
			if got := x.Bytes(); !bytes.Equal(got, want) {
				return fmt.Errorf("written again as %.200x", got)
			}
			return nil
		}
		// a used object collects the addresses of both, so only fresh ones are read
		c.Case(hv.Hash64([]byte(kind), want), true)
		var got []byte
		if p := c.Do(func() string { return kind }, func() { got = obj().Bytes() }); p != nil || !bytes.Equal(got, want) {
			c.Violate(kind+"/bytes", fmt.Sprintf("%s: addresses %.200x are written as %.200x (panic %v)", kind, want, got, p), fmt.Sprintf("%.2000x", want))
			return
		}
		frame := append(be([]byte{0x54, 0x34}, uint8(6), uint64(len(want))), want...)
		x := new(p2p.PeerAddrs)
		r := bytes.NewReader(append(frame, 9))
		k, err := p2p.ReadMessage(r, x)
		if err != nil || k != uint64(len(frame)) || r.Len() != 1 || eq(x) != nil {
			c.Violate(kind+"/frame", fmt.Sprintf("%s: address frame: %v, count %d, left %d, %v", kind, err, k, r.Len(), eq(x)), fmt.Sprintf("%.2000x", frame))
		}
		var w bytes.Buffer
		if k, err := p2p.WriteMessage(&w, x); err != nil || k != uint64(len(frame)) || !bytes.Equal(w.Bytes(), frame) {
			c.Violate(kind+"/frame written", fmt.Sprintf("%s: address frame written as %.200x (%v)", kind, w.Bytes(), err), fmt.Sprintf("%.2000x", frame))
		}
		// the addresses as the node holds them
		if held, ok := heldAddrs(x); ok {
			rest := list
			for _, a := range held {
				var w []byte
				if v4 := a.IP.To4(); v4 != nil && len(rest) > 0 && rest[0] == 0 {
					w = be(uint8(0), []byte(v4), uint16(a.Port))
				} else {
					w = be(uint8(1), []byte(a.IP.To16()), uint16(a.Port))
				}
				if a.Port < 0 || a.Port > 65535 || !bytes.HasPrefix(rest, w) {
					c.Violate(kind+"/held", fmt.Sprintf("%s: of the addresses %.200x one is read as %v", kind, want, a), fmt.Sprintf("%.2000x", want))
					return
				}
				rest = rest[len(w):]
			}
			if len(rest) > 0 {
				c.Violate(kind+"/held", fmt.Sprintf("%s: of the addresses %.200x %d are read", kind, want, len(held)), fmt.Sprintf("%.2000x", want))
				return
			}
		}
		c.Outcome(kind)
		c.Sample(kind, func() interface{} { return fmt.Sprintf("%.300x", want) })
	}
	v4, v6 := net.IPv4(1, 2, 3, 4).To4(), net.ParseIP("2001:db8:1122:3344:5566:7788:99aa:bbcc")
	for _, base := range []net.IP{v4, v6} {
		for b := 0; b < len(base)*8; b++ {
			ip := append(net.IP(nil), base...)
			ip[b/8] ^= 1 << uint(b%8)
			for _, port := range []int{0, 1, 80, 255, 256, 13414, 32767, 32768, 65535} {
				addrs(fmt.Sprintf("address v%d", len(base)), addr(ip, port), 1)
			}
		}
		for port := 0; port < 65536; port++ {
			if c.Thorough || port < 300 || port%251 == 0 || port > 65500 {
				addrs(fmt.Sprintf("address v%d", len(base)), addr(base, port), 1)
			}
		}
		zero, ones := make(net.IP, len(base)), bytes.Repeat([]byte{255}, len(base))
		addrs("address extremes", append(addr(zero, 0), addr(ones, 65535)...), 2)
		// a single nonzero segment
		for i := range zero {
			z := append(net.IP(nil), zero...)
			z[i] = 0x80
			if len(base) == 16 || true {
				addrs("address extremes", addr(z, 7), 1)
			}
		}
	}
	for n := 0; n <= 256; n++ {
		var l []byte
		for i := 0; i < n; i++ {
			if i%3 == 1 {
				ip := append(net.IP(nil), v6...)
				ip[15], ip[0] = byte(i), byte(n)
				l = append(l, addr(ip, i*5)...)
			} else {
				l = append(l, addr(net.IPv4(byte(n), 2, byte(i), 4), i)...)
			}
		}
		addrs(fmt.Sprintf("addresses/%d", n/64*64), l, n)
	}
}

// errMsg is an error message with a text.
func errMsg(v uint32, name, text string) {
	msg(name, 0, func() p2p.Message { return &p2p.PeerError{Code: v, Message: text} }, func() p2p.Message { return new(p2p.PeerError) },
		func(x p2p.Message) error {
			if p := x.(*p2p.PeerError); p.Code != v || p.Message != text {
				return fmt.Errorf("code %d, %d bytes %.60q", p.Code, len(p.Message), p.Message)
			}
			return nil
		}, be(v, uint64(len(text)), []byte(text)))
}

// heldAddrs is the list of addresses inside the message, if it is one of
// net.TCPAddr.
func heldAddrs(x *p2p.PeerAddrs) ([]*net.TCPAddr, bool) {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf([]*net.TCPAddr(nil)) {
			return *(*[]*net.TCPAddr)(f.Addr().UnsafePointer()), true
		}
	}
	return nil, false
}
