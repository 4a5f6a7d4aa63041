// C02: nonces map to the graph edges that the Grin siphash defines.
package main

import (
	"fmt"

	"verif/hv"
	"verif/ref"

	"github.com/dblokhin/gringo/cuckoo"
)

// reference vectors of the SipHash-2-4 words and blocks that Grin publishes
// with its Cuckoo and Cuckaroo implementations; the reference model is checked
// against them before it is used as the oracle.
var vectors24 = []struct {
	key   [4]uint64
	nonce uint64
	want  uint64
}{
	{[4]uint64{1, 2, 3, 4}, 10, 928382149599306901},
	{[4]uint64{1, 2, 3, 4}, 111, 10524991083049122233},
	{[4]uint64{9, 7, 6, 7}, 12, 1305683875471634734},
	{[4]uint64{9, 7, 6, 7}, 10, 11589833042187638814},
}
var vectorsBlock = []struct {
	key   [4]uint64
	nonce uint64
	want  uint64
}{
	{[4]uint64{1, 2, 3, 4}, 10, 1182162244994096396},
	{[4]uint64{1, 2, 3, 4}, 123, 11303676240481718781},
	{[4]uint64{9, 7, 6, 7}, 12, 4886136884237259030},
}

func main() {
	hv.Main("C02", "exploration", "every key of 64 single-bit and corner patterns per word times every nonce of a set that has all 64 block positions of every kind of block (the first, the last, those around every power of two), for all graph sizes and, for Cuckoo, both partitions; every header length 0..300 for the key derivation. Every case is distinct; non-trivial: the nonce is not 0 or the key not the all-zero one.", run)
}

func run(c *hv.Ctx) {
	for _, v := range vectors24 {
		if got := ref.Siphash24(v.key, v.nonce); got != v.want {
			panic(fmt.Sprintf("reference siphash is wrong: %v %d", v, got))
		}
	}
	for _, v := range vectorsBlock {
		if got := ref.SiphashBlock(v.key, v.nonce); got != v.want {
			panic(fmt.Sprintf("reference siphash block is wrong: %v %d", v, got))
		}
	}

	// nonces: all positions of the blocks around every power of two
	var nonces []uint32
	seen := map[uint32]bool{}
	add := func(n uint64) {
		b := uint32(n) &^ 63
		if seen[b] {
			return
		}
		seen[b] = true
		for i := uint32(0); i < 64; i++ {
			nonces = append(nonces, b+i)
		}
	}
	for s := uint(6); s <= 32; s++ {
		add(1<<s - 1)
		if s < 32 {
			add(1 << s)
		}
	}
	add(0)
	add(0x55555555)
	add(0xaaaaaaaa)

	// keys: corner words, every single-bit key and its complement
	corner := []uint64{0, 1, 1<<64 - 1, 1 << 63, 0x0123456789abcdef}
	var keys [][4]uint64
	for _, a := range corner {
		for _, b := range corner {
			for _, d := range corner {
				for _, e := range corner {
					keys = append(keys, [4]uint64{a, b, d, e})
				}
			}
		}
	}
	for w := 0; w < 4; w++ {
		for b := uint(0); b < 64; b++ {
			k := [4]uint64{}
			k[w] = 1 << b
			keys = append(keys, k)
			k = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
			k[w] ^= 1 << b
			keys = append(keys, k)
		}
	}
	headers := [][]byte{}
	for n := 0; n <= 300; n++ {
		h := make([]byte, n)
		for i := range h {
			h[i] = byte(i*7 + n)
		}
		headers = append(headers, h)
	}
	c.Set("keys", len(keys))
	c.Set("headers", len(headers))
	c.Set("nonces", len(nonces))

	// Cuckaroo by key. The mask argument is the number of edges minus one.
	masks := []uint64{1<<32 - 1, 1<<29 - 1, 1<<30 - 1, 1<<31 - 1, 1<<15 - 1, 1, 0}
	roo := func(kind string, g *cuckoo.Cuckaroo, key [4]uint64, name interface{}, ns []uint32) {
		for _, n := range ns {
			want := ref.SiphashBlock(key, uint64(n))
			for _, m := range masks {
				var e *cuckoo.Edge
				if p := hv.Try(func() { e = g.NewEdge(n, m) }); p != nil || e == nil {
					c.Violate("cuckaroo/panic", fmt.Sprintf("NewEdge(%d) of key %x: panic %v", n, key, p), fmt.Sprint(name, n, m))
					return
				}
				c.Case(hv.Hash64([]byte(fmt.Sprintf("%s%x%d", kind, key, m)))+uint64(n)*0x9E3779B97F4A7C15, n != 0 || key != [4]uint64{})
				if e.U != want&m || e.V != want>>32&m {
					c.Violate("cuckaroo/"+kind, fmt.Sprintf("cuckaroo edge of nonce %d, key %x, mask %x is (%x,%x), want (%x,%x)", n, key, m, e.U, e.V, want&m, want>>32&m), fmt.Sprint(name, n, m))
					return
				}
			}
		}
		c.Sample(kind, func() interface{} {
			n := ns[len(ns)/2]
			return map[string]interface{}{"key": fmt.Sprintf("%x", key), "nonce": n, "edge": fmt.Sprintf("%x", ref.SiphashBlock(key, uint64(n)))}
		})
	}
	oo := func(g *cuckoo.Cuckoo, key [4]uint64, bits uint, ns []uint32, name interface{}) {
		mask := uint64(1)<<bits/2 - 1
		for _, n := range ns {
			u := (ref.Siphash24(key, 2*uint64(n))&mask)<<1 | 0
			v := (ref.Siphash24(key, 2*uint64(n)+1)&mask)<<1 | 1
			var e *cuckoo.Edge
			if p := hv.Try(func() { e = g.NewEdge(n) }); p != nil || e == nil {
				c.Violate("cuckoo/panic", fmt.Sprintf("NewEdge(%d): panic %v", n, p), fmt.Sprint(name, n))
				return
			}
			c.Case(hv.Hash64([]byte(fmt.Sprintf("oo%x%d", key, bits)))+uint64(n)*0x9E3779B97F4A7C15, true)
			if e.U != u || e.V != v {
				c.Violate("cuckoo/edge", fmt.Sprintf("cuckoo edge of nonce %d, size %d, header %v is (%x,%x), want (%x,%x)", n, bits, name, e.U, e.V, u, v), fmt.Sprint(name, n))
				return
			}
		}
		c.Sample(fmt.Sprintf("cuckoo%d", bits/8), func() interface{} {
			return map[string]interface{}{"header": name, "bits": bits, "nonce": ns[0]}
		})
	}
	few := nonces
	if !c.Thorough {
		few = nil
		for i, n := range nonces {
			if i%5 == 0 || i < 64 || i >= len(nonces)-64 {
				few = append(few, n)
			}
		}
	}
	c.Par(len(keys), func(i int) {
		ns := few
		if i%16 == 0 {
			ns = nonces // all positions of all blocks
		}
		roo("from-keys", cuckoo.NewFromKeys(keys[i]), keys[i], fmt.Sprintf("%x", keys[i]), ns)
	})
	c.Par(len(headers), func(i int) {
		key := ref.Key(headers[i])
		roo("from-header", cuckoo.NewCuckaroo(headers[i]), key, fmt.Sprintf("header of %d bytes", len(headers[i])), nonces[:128])
		for bits := uint(1); bits <= 33; bits++ {
			ns := nonces[:64]
			if i%30 == 0 {
				ns = nonces
			}
			oo(cuckoo.New(headers[i], uint8(bits)), key, bits, ns, fmt.Sprintf("header of %d bytes", len(headers[i])))
		}
	})

	// the same graph answers alike whatever was asked before: every order of three nonces
	g := cuckoo.NewFromKeys(keys[3])
	o := cuckoo.New(headers[9], 20)
	pool := []uint32{0, 1, 62, 63, 64, 65, 127, 128, 1 << 20, 1<<32 - 1}
	for _, a := range pool {
		for _, b := range pool {
			for _, d := range pool {
				for _, n := range []uint32{a, b, d} {
					w := ref.SiphashBlock(keys[3], uint64(n))
					e := g.NewEdge(n, 1<<32-1)
					k := ref.Key(headers[9])
					f := o.NewEdge(n)
					c.Case(uint64(a)<<40^uint64(b)<<20^uint64(d)<<1^uint64(n)<<7, true)
					if e.U != w&(1<<32-1) || e.V != w>>32 || f.U != (ref.Siphash24(k, 2*uint64(n))&(1<<19-1))<<1 || f.V != (ref.Siphash24(k, 2*uint64(n)+1)&(1<<19-1))<<1|1 {
						c.Violate("history", fmt.Sprintf("edge of nonce %d differs after asking for %d, %d, %d", n, a, b, d), fmt.Sprint(a, b, d, n))
						return
					}
				}
			}
		}
	}
}
