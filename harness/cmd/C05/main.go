// C05: consensus objects survive serialisation unchanged and canonically.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"verif/conv"
	"verif/fix"
	"verif/hv"
	"verif/ref"
	"verif/rt"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

var c *hv.Ctx

func main() {
	hv.Main("C05", "exploration", "every header with one or two members at each of their boundary values and the rest distinct, all 32 graph sizes with single-bit, extreme and mixed nonces; every input, output, kernel at boundary values; blocks, compact blocks and transactions with every list shape up to three elements each and every order of them, and the largest lists the counts can express; locators of every length; the genesis blocks. Each is written, compared byte by byte with an independent encoder, and read back from contiguous, one-byte and error-with-data readers. Every case is non-trivial: the object has distinct members, so exchanged or lost members show.", run)
}

type codec = rt.Codec

func roundtrip(kind string, obj func() codec, fresh func() codec, eq func(x codec) error, want []byte) {
	rt.Roundtrip(c, kind, obj, fresh, eq, want)
}

func seq32(tag byte) (h [32]byte) {
	for i := range h {
		h[i] = tag + byte(i)
	}
	return
}

func baseHeader() *ref.Header {
	h := &ref.Header{Version: 0x0102, Height: 0x1112131415161718, TS: 0x24252627, Previous: seq32(0x30), PreviousRoot: seq32(0x51), UTXORoot: seq32(0x72), RangeProofRoot: seq32(0x93),
		KernelRoot: seq32(0xb4), Offset: seq32(0xd5), OutputMmr: 0x4142434445464748, KernelMmr: 0x5152535455565758, TD: 0x6162636465666768, Scaling: 0x71727374, Nonce: 0x8182838485868788, EdgeBits: 29}
	for i := uint32(0); i < 42; i++ {
		h.Nonces = append(h.Nonces, i*0x0c30c31+i)
	}
	return h
}

func header(kind string, h *ref.Header) {
	roundtrip(kind, func() codec { x := conv.Header(h); return &x }, func() codec { return new(consensus.BlockHeader) },
		func(x codec) error { return conv.EqHeader(x.(*consensus.BlockHeader), h) }, h.Bytes())
	roundtrip(kind+"/proof", func() codec { x := conv.Header(h).POW; return &x }, func() codec { return new(consensus.Proof) },
		func(x codec) error {
			p := x.(*consensus.Proof)
			if p.EdgeBits != h.EdgeBits || fmt.Sprint(p.Nonces) != fmt.Sprint(h.Nonces) {
				return fmt.Errorf("%v", p)
			}
			return nil
		}, h.PowBytes())
}

func run(ctx *hv.Ctx) {
	c = ctx
	rec := ref.ParseBlock(fix.Block65927())

	// headers: members at their boundaries, one and two at a time
	u64s := []uint64{0, 1, 0xff, 0x100, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	var sets []func(h *ref.Header)
	for _, v := range u64s {
		v := v
		sets = append(sets, func(h *ref.Header) { h.Height = v }, func(h *ref.Header) { h.OutputMmr = v }, func(h *ref.Header) { h.KernelMmr = v }, func(h *ref.Header) { h.TD = v }, func(h *ref.Header) { h.Nonce = v })
	}
	for _, v := range []uint16{0, 1, 2, 3, 0xff, 0x100, 0x7fff, 0x8000, 0xffff} {
		v := v
		sets = append(sets, func(h *ref.Header) { h.Version = v })
	}
	for _, v := range []uint32{0, 1, 0xff, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		v := v
		sets = append(sets, func(h *ref.Header) { h.Scaling = v })
	}
	for _, v := range []int64{0, 1, -1, 1539806400, -62135596800, -62135596801, 253402300800, 1 << 31, 1 << 33, -1 << 33, ref.MinTS, ref.MinTS + 1, ref.MaxTS, ref.MaxTS - 1} {
		v := v
		sets = append(sets, func(h *ref.Header) { h.TS = v })
	}
	for _, b := range []byte{0, 1, 0x80, 0xff} {
		var a [32]byte
		for i := range a {
			a[i] = b
		}
		sets = append(sets, func(h *ref.Header) { h.Previous = a }, func(h *ref.Header) { h.PreviousRoot = a }, func(h *ref.Header) { h.UTXORoot = a }, func(h *ref.Header) { h.RangeProofRoot = a }, func(h *ref.Header) { h.KernelRoot = a }, func(h *ref.Header) { h.Offset = a })
	}
	c.Par(len(sets), func(i int) {
		for j := 0; j <= i; j++ {
			h := baseHeader()
			sets[i](h)
			sets[j](h)
			header("header", h)
		}
	})
	// graph sizes and nonces
	type nj struct{ bits, pat int }
	var njs []nj
	for bits := 1; bits <= 32; bits++ {
		for pat := 0; pat < 6+42; pat++ {
			njs = append(njs, nj{bits, pat})
		}
		if c.Thorough {
			for pat := 100; pat < 100+42*bits; pat++ {
				njs = append(njs, nj{bits, pat})
			}
		}
	}
	c.Par(len(njs), func(i int) {
		bits, pat := njs[i].bits, njs[i].pat
		max := uint32(1<<uint(bits) - 1)
		h := baseHeader()
		h.EdgeBits = uint8(bits)
		for n := range h.Nonces {
			switch {
			case pat == 0:
				h.Nonces[n] = 0
			case pat == 1:
				h.Nonces[n] = max
			case pat == 2:
				h.Nonces[n] = 0x55555555 & max
			case pat == 3:
				h.Nonces[n] = 0xaaaaaaaa & max
			case pat == 4:
				h.Nonces[n] = (uint32(n) * 0x9E3779B9) & max
			case pat == 5: // one set bit, moving
				h.Nonces[n] = 1 << uint(n%bits)
			case pat < 100: // a single nonce
				h.Nonces[n] = 0
				if n == pat-6 {
					h.Nonces[n] = max
				}
			default: // a single bit of the whole list
				h.Nonces[n] = 0
				if n == (pat-100)/bits {
					h.Nonces[n] = 1 << uint((pat-100)%bits)
				}
			}
		}
		header("nonces", h)
	})

	// elements
	var ins []ref.Input
	for i := 0; i < 6; i++ {
		in := ref.Input{Features: []byte{0, 1, 0, 255, 2, 1}[i]}
		copy(in.Commit[:], ref.Commitment(ref.MulPt(ref.GPt, big.NewInt(int64(900+i)))))
		ins = append(ins, in)
		roundtrip("input", func() codec { x := conv.Input(in); return &x }, func() codec { return new(consensus.Input) },
			func(x codec) error { return conv.EqInput(x.(*consensus.Input), in) }, in.Bytes())
	}
	var outs []ref.Output
	for i := 0; i < 6; i++ {
		o := rec.Outputs[i%3]
		o.Features = []byte{1, 0, 0, 255, 2, 1}[i]
		if i == 4 { // points with the other sign
			o.Commit[0] ^= 1
		}
		outs = append(outs, o)
		roundtrip("output", func() codec { x := conv.Output(o); return &x }, func() codec { return new(consensus.Output) },
			func(x codec) error { return conv.EqOutput(x.(*consensus.Output), o) }, o.Bytes())
	}
	var kers []ref.Kernel
	for i, v := range u64s {
		k := ref.Kernel{Features: byte(i), Fee: v, Lock: u64s[(i*3+1)%len(u64s)]}
		if i%4 == 3 {
			k.Features = 255
		}
		copy(k.Excess[:], ref.Commitment(ref.MulPt(ref.GPt, big.NewInt(int64(77+i)))))
		for j := range k.Sig {
			k.Sig[j] = byte(i*64 + j)
		}
		kers = append(kers, k)
		roundtrip("kernel", func() codec { x := conv.Kernel(k); return &x }, func() codec { return new(consensus.TxKernel) },
			func(x codec) error { return conv.EqKernel(x.(*consensus.TxKernel), k) }, k.Bytes())
	}
	kers = append(kers, rec.Kernels...)

	// lists: every shape and order
	var shapes [][3][]int
	for a := 0; a <= 3; a++ {
		for b := 0; b <= 3; b++ {
			for k := 0; k <= 3; k++ {
				pa, pb, pk := perms(a), perms(b), perms(k)
				n := len(pa)
				if len(pb) > n {
					n = len(pb)
				}
				if len(pk) > n {
					n = len(pk)
				}
				if c.Thorough { // every combination of orders
					for _, x := range pa {
						for _, y := range pb {
							for _, z := range pk {
								shapes = append(shapes, [3][]int{x, y, z})
							}
						}
					}
					continue
				}
				for i := 0; i < n; i++ {
					shapes = append(shapes, [3][]int{pa[i%len(pa)], pb[(i*5+1)%len(pb)], pk[(i+2)%len(pk)]})
				}
			}
		}
	}
	h := rec.Head
	ids := [][]byte{{0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 1}, {255, 255, 255, 255, 255, 255}, {1, 2, 3, 4, 5, 6}, {1, 2, 3, 4, 5, 5}, {128, 0, 0, 0, 0, 0}}
	c.Par(len(shapes), func(i int) {
		s := shapes[i]
		var in []ref.Input
		var out []ref.Output
		var ker []ref.Kernel
		var id [][]byte
		for _, x := range s[0] {
			in = append(in, ins[(x+i)%len(ins)])
			id = append(id, ids[(x*2+i)%len(ids)])
		}
		for _, x := range s[1] {
			out = append(out, outs[(x+i)%len(outs)])
		}
		for _, x := range s[2] {
			ker = append(ker, kers[(x*2+i)%len(kers)])
		}
		lists("small lists", h, in, out, ker, id)
	})
	// the recorded block as it is
	lists("recorded", h, rec.Inputs, rec.Outputs, rec.Kernels, ids)

	// many elements: the counts carry
	big1 := func(n int) (l []ref.Input) {
		for i := 0; i < n; i++ {
			in := ins[i%len(ins)]
			binary.BigEndian.PutUint32(in.Commit[10:], uint32(i))
			l = append(l, in)
		}
		return
	}
	bigK := func(n int) (l []ref.Kernel) {
		for i := 0; i < n; i++ {
			k := kers[i%len(kers)]
			k.Fee = uint64(i) * 0x10001
			l = append(l, k)
		}
		return
	}
	bigO := func(n int) (l []ref.Output) {
		for i := 0; i < n; i++ {
			o := outs[i%3]
			o.Features = byte(i % 251)
			if i >= 250 {
				o.Commit[0] ^= 1
			}
			l = append(l, o)
		}
		return
	}
	bigID := func(n int) (l [][]byte) {
		for i := 0; i < n; i++ {
			b := make([]byte, 6)
			binary.BigEndian.PutUint32(b[1:], uint32(i)*2654435761)
			l = append(l, b)
		}
		return
	}
	sizes := [][4]int{{255, 0, 0, 255}, {256, 1, 1, 256}, {257, 0, 255, 257}, {0, 255, 256, 1000}, {0, 0, 300, 65536}, {1000, 100, 3, 65537}, {65537, 0, 0, 3}, {0, 0, 66000, 1}}
	if !c.Thorough {
		sizes = sizes[:4]
		sizes = append(sizes, [4]int{0, 0, 0, 65537})
	}
	c.Par(len(sizes), func(i int) {
		s := sizes[i]
		lists("large lists", h, big1(s[0]), bigO(s[1]), bigK(s[2]), bigID(s[3]))
	})

	// locators
	for n := 0; n <= 14; n++ {
		var want []byte
		want = append(want, byte(n))
		mk := func() *consensus.Locator {
			l := new(consensus.Locator)
			for i := 0; i < n; i++ {
				b := seq32(byte(i * 17))
				l.Hashes = append(l.Hashes, b[:])
			}
			return l
		}
		for i := 0; i < n; i++ {
			b := seq32(byte(i * 17))
			want = append(want, b[:]...)
		}
		roundtrip(fmt.Sprintf("locator/%d", n), func() codec { return mk() }, func() codec { return new(consensus.Locator) },
			func(x codec) error {
				l := x.(*consensus.Locator)
				if len(l.Hashes) != n {
					return fmt.Errorf("%d hashes", len(l.Hashes))
				}
				for i := range l.Hashes {
					if b := seq32(byte(i * 17)); !bytes.Equal(l.Hashes[i], b[:]) {
						return fmt.Errorf("hash %d is %x", i, l.Hashes[i])
					}
				}
				return nil
			}, want)
	}

	// genesis blocks
	gs := map[string]consensus.Block{"Testnet1": chain.Testnet1, "Testnet2": chain.Testnet2, "Testnet3": chain.Testnet3, "Testnet4": chain.Testnet4, "Mainnet": chain.Mainnet}
	for n1, g := range gs {
		g := g
		r := toRef(&g.Header)
		if len(g.Header.Previous) != 32 || len(g.Header.PreviousRoot) != 32 || len(g.Header.UTXORoot) != 32 || len(g.Header.RangeProofRoot) != 32 || len(g.Header.KernelRoot) != 32 || len(g.Header.TotalKernelOffset) != 32 || len(g.Header.POW.Nonces) != 42 {
			c.Violate("genesis/"+n1, "genesis "+n1+" lacks header members", n1)
			continue
		}
		roundtrip("genesis/"+n1, func() codec { return &g }, func() codec { return new(consensus.Block) },
			func(x codec) error { return conv.EqHeader(&x.(*consensus.Block).Header, r) }, (&ref.Block{Head: r}).Bytes())
		for _, n := range r.Nonces {
			if uint64(n) >= 1<<r.EdgeBits {
				c.Violate("genesis/"+n1+"/nonce", fmt.Sprintf("genesis %s: nonce %x does not fit its graph of %d bits", n1, n, r.EdgeBits), n1)
			}
		}
		for n2, g2 := range gs {
			same := fmt.Sprint(g.Header.POW) == fmt.Sprint(g2.Header.POW)
			c.Case(hv.Hash64([]byte(n1), []byte(n2)), n1 != n2)
			if bytes.Equal(g.Hash(), g2.Hash()) != same {
				c.Violate("genesis/hash", fmt.Sprintf("genesis %s and %s: equal hashes=%v, equal proofs=%v", n1, n2, !same, same), nil)
			}
		}
	}
}

func toRef(h *consensus.BlockHeader) *ref.Header {
	r := &ref.Header{Version: h.Version, Height: h.Height, TS: h.Timestamp.Unix(), OutputMmr: h.OutputMmrSize, KernelMmr: h.KernelMmrSize,
		TD: uint64(h.TotalDifficulty), Scaling: h.ScalingDifficulty, Nonce: h.Nonce, EdgeBits: h.POW.EdgeBits, Nonces: h.POW.Nonces}
	copy(r.Previous[:], h.Previous)
	copy(r.PreviousRoot[:], h.PreviousRoot)
	copy(r.UTXORoot[:], h.UTXORoot)
	copy(r.RangeProofRoot[:], h.RangeProofRoot)
	copy(r.KernelRoot[:], h.KernelRoot)
	copy(r.Offset[:], h.TotalKernelOffset)
	return r
}

func lists(kind string, h *ref.Header, in []ref.Input, out []ref.Output, ker []ref.Kernel, ids [][]byte) {
	sin, sout, sker, sid := sorted(in, out, ker, ids)
	sb := &ref.Block{Head: h, Inputs: sin, Outputs: sout, Kernels: sker}
	roundtrip("block/"+kind, func() codec {
		b := &consensus.Block{Header: conv.Header(h)}
		b.Inputs, b.Outputs, b.Kernels = conv.Lists(in, out, ker)
		return b
	}, func() codec { return new(consensus.Block) }, func(x codec) error {
		b := x.(*consensus.Block)
		if err := conv.EqHeader(&b.Header, h); err != nil {
			return err
		}
		return conv.EqLists(b.Inputs, b.Outputs, b.Kernels, sin, sout, sker)
	}, sb.Bytes())

	off := seq32(0x11)
	var w bytes.Buffer
	w.Write(off[:])
	for _, n := range []int{len(in), len(out), len(ker)} {
		binary.Write(&w, binary.BigEndian, uint64(n))
	}
	w.Write(sb.Body())
	roundtrip("transaction/"+kind, func() codec {
		t := &consensus.Transaction{KernelOffset: off}
		t.Inputs, t.Outputs, t.Kernels = conv.Lists(in, out, ker)
		return t
	}, func() codec { return new(consensus.Transaction) }, func(x codec) error {
		t := x.(*consensus.Transaction)
		if t.KernelOffset != off {
			return fmt.Errorf("kernel offset %x", t.KernelOffset)
		}
		return conv.EqLists(t.Inputs, t.Outputs, t.Kernels, sin, sout, sker)
	}, w.Bytes())

	if len(out) > 255 || len(ker) > 255 {
		return // a compact block counts these in a byte
	}
	w.Reset()
	w.Write(h.Bytes())
	w.WriteByte(byte(len(out)))
	w.WriteByte(byte(len(ker)))
	binary.Write(&w, binary.BigEndian, uint64(len(ids)))
	w.Write((&ref.Block{Outputs: sout, Kernels: sker}).Body())
	for _, b := range sid {
		w.Write(b)
	}
	roundtrip("compact block/"+kind, func() codec {
		b := &consensus.CompactBlock{Header: conv.Header(h)}
		_, b.Outputs, b.Kernels = conv.Lists(nil, out, ker)
		for _, i := range ids {
			b.KernelIDs = append(b.KernelIDs, append([]byte(nil), i...))
		}
		return b
	}, func() codec { return new(consensus.CompactBlock) }, func(x codec) error {
		b := x.(*consensus.CompactBlock)
		if err := conv.EqHeader(&b.Header, h); err != nil {
			return err
		}
		if len(b.KernelIDs) != len(sid) {
			return fmt.Errorf("%d kernel ids, want %d", len(b.KernelIDs), len(sid))
		}
		for i := range sid {
			if !bytes.Equal(b.KernelIDs[i], sid[i]) {
				return fmt.Errorf("kernel id %d is %x, want %x", i, []byte(b.KernelIDs[i]), sid[i])
			}
		}
		return conv.EqLists(nil, b.Outputs, b.Kernels, nil, sout, sker)
	}, w.Bytes())
}

func sorted(in []ref.Input, out []ref.Output, ker []ref.Kernel, ids [][]byte) (a []ref.Input, b []ref.Output, k []ref.Kernel, d [][]byte) {
	a, b, k, d = append(a, in...), append(b, out...), append(k, ker...), append(d, ids...)
	sort.SliceStable(a, func(i, j int) bool { return bytes.Compare(a[i].Hash(), a[j].Hash()) < 0 })
	sort.SliceStable(b, func(i, j int) bool { return bytes.Compare(b[i].Hash(), b[j].Hash()) < 0 })
	sort.SliceStable(k, func(i, j int) bool { return bytes.Compare(k[i].Hash(), k[j].Hash()) < 0 })
	sort.SliceStable(d, func(i, j int) bool { return bytes.Compare(d[i], d[j]) < 0 })
	return
}

func perms(n int) (out [][]int) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
	return
}
