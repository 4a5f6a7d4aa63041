// C16: value commitments add up and hide nothing wrong.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"verif/conv"
	"verif/fix"
	"verif/hv"
	"verif/memstore"
	"verif/ref"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
)

var c *hv.Ctx

func main() {
	hv.Main("C16", "exploration", "commitments to every pair of a grid of blinding factors and values (zero, small, powers of two, around 2^64 and the group order), compared with a reference of the curve; all sums of pairs of them; all pairs compared for equality; serialisation of all; range proofs of boundary values created for their commitments and checked, in a block, against every other commitment of the set. Non-trivial: all.", run)
}

func pt(p *bulletproofs.Point) ref.Pt {
	if p == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return ref.Pt{}
	}
	return ref.Pt{X: p.X, Y: p.Y}
}

type com struct {
	b, v *big.Int
	p    *bulletproofs.Point
	r    ref.Pt
}

func (x *com) String() string { return fmt.Sprintf("%x*G+%x*H", x.b, x.v) }

func run(ctx *hv.Ctx) {
	c = ctx
	one := big.NewInt(1)
	pow := func(n uint, d int64) *big.Int { return new(big.Int).Add(new(big.Int).Lsh(one, n), big.NewInt(d)) }
	n := func(d int64) *big.Int { return new(big.Int).Add(ref.N, big.NewInt(d)) }
	blinds := []*big.Int{big.NewInt(0), one, big.NewInt(2), big.NewInt(3), big.NewInt(5), big.NewInt(8), pow(64, 0), pow(128, 1), pow(255, 19), n(-1), n(-2), n(-3), new(big.Int).Rsh(ref.N, 1), big.NewInt(0x123456789)}
	values := []*big.Int{big.NewInt(0), one, big.NewInt(2), big.NewInt(3), big.NewInt(5), big.NewInt(60), big.NewInt(60000000000), pow(31, 0), pow(32, -1), pow(32, 0), pow(52, -1), pow(63, -1), pow(63, 0), pow(64, -2), pow(64, -1), n(-1), n(-2)}
	if c.Thorough {
		for i := uint(1); i < 256; i += 5 {
			blinds = append(blinds, pow(i, 7))
			values = append(values, pow(i/4, -1))
		}
	}
	// the generators
	g, h := pt(&secp256k1zkp.G), pt(&secp256k1zkp.H)
	if !g.Equal(ref.GPt) || !h.Equal(ref.HPt) || !h.OnCurve() {
		c.Violate("generators", "G or H is another point", nil)
	}
	var coms []*com
	var mu sync.Mutex
	commit := func(b, v *big.Int) (p *bulletproofs.Point, pan interface{}) {
		bb, vv := new(big.Int).Set(b), new(big.Int).Set(v)
		pan = c.Do(func() string { return "commit" }, func() { p = secp256k1zkp.CommitValue(bb, vv) })
		if pan == nil && (bb.Cmp(b) != 0 || vv.Cmp(v) != 0) {
			pan = "the arguments were changed"
		}
		return
	}
	c.Par(len(blinds)*len(values), func(i int) {
		b, v := blinds[i%len(blinds)], values[i/len(blinds)]
		p, pan := commit(b, v)
		want := ref.AddPt(ref.MulPt(ref.GPt, b), ref.MulPt(ref.HPt, v))
		c.Case(hv.Hash64([]byte(b.String()), []byte(v.String())), true)
		in := map[string]string{"blind": b.Text(16), "value": v.Text(16)}
		if pan != nil || p == nil || !pt(p).Equal(want) {
			c.Violate("commitment", fmt.Sprintf("commitment to %x with blind %x is %v (panic %v), want %v", v, b, p, pan, want), in)
			return
		}
		c.Sample("commitment", func() interface{} { return in })
		if want.X != nil {
			// through the wire, as an output's commitment, an input's and a kernel's excess
			raw := p.Bytes()
			if !bytes.Equal(raw, ref.Commitment(want)) {
				c.Violate("bytes", fmt.Sprintf("commitment is written as %x, want %x", raw, ref.Commitment(want)), in)
				return
			}
			var q bulletproofs.Point
			if err := q.Read(bytes.NewReader(raw)); err != nil || !pt(&q).Equal(want) {
				c.Violate("read", fmt.Sprint("commitment is read back as another point ", err), in)
				return
			}
			cm := make(secp256k1zkp.Commitment, 33)
			if err := cm.Read(bytes.NewReader(raw)); err != nil || !bytes.Equal(cm.Bytes(), raw) {
				c.Violate("read", fmt.Sprint("commitment bytes are read back differently ", err), in)
				return
			}
			inp := consensus.Input{Features: 1, Commit: append(secp256k1zkp.Commitment(nil), raw...)}
			var back consensus.Input
			if err := back.Read(bytes.NewReader(inp.Bytes())); err != nil || !bytes.Equal(back.Commit, raw) {
				c.Violate("input", fmt.Sprint("an input's commitment is read back differently ", err), in)
				return
			}
			ker := consensus.TxKernel{Excess: *p}
			var kb consensus.TxKernel
			if err := kb.Read(bytes.NewReader(ker.Bytes())); err != nil || !pt(&kb.Excess).Equal(want) {
				c.Violate("kernel", fmt.Sprint("a kernel's excess is read back differently ", err), in)
				return
			}
		}
		mu.Lock()
		coms = append(coms, &com{b, v, p, want})
		mu.Unlock()
	})
	if c.Stopped() {
		return
	}
	// equal only for the same blind and value (no relation of G and H is known;
	// b+kv equal mod N never meets here), sums of commitments commit to the sums
	c.Par(len(coms), func(i int) {
		x := coms[i]
		for j, y := range coms {
			if eq := pt(x.p).Equal(pt(y.p)); eq != (i == j) {
				c.Violate("equal", fmt.Sprintf("%v and %v are equal: %v", x, y, eq), nil)
				return
			}
			if (i*31+j)%7 != 0 && !c.Thorough || j < i {
				continue
			}
			b := new(big.Int).Mod(new(big.Int).Add(x.b, y.b), ref.N)
			v := new(big.Int).Mod(new(big.Int).Add(x.v, y.v), ref.N)
			s, pan := commit(b, v)
			c.Case(uint64(i)<<32|uint64(j), true)
			if pan != nil || !pt(s).Equal(ref.AddPt(x.r, y.r)) {
				c.Violate("sum", fmt.Sprintf("commitment to the sum of %v and %v is not the sum of the commitments (%v)", x, y, pan), nil)
				return
			}
		}
		c.Outcome("sums")
	})
	if c.Stopped() {
		return
	}
	// range proofs
	type proved struct {
		x  *com
		pr bulletproofs.BulletProof
	}
	var set []*proved
	add := func(b, v *big.Int) {
		p, _ := commit(b, v)
		set = append(set, &proved{x: &com{b: b, v: v, p: p, r: pt(p)}})
	}
	for _, v := range []*big.Int{big.NewInt(0), one, big.NewInt(2), big.NewInt(60000000000), pow(32, -1), pow(32, 0), pow(63, 0), pow(64, -1)} {
		add(big.NewInt(0x5555), v)
		if c.Thorough {
			add(n(-1), v)
		}
	}
	add(one, big.NewInt(60000000000))
	add(n(-1), big.NewInt(60000000000))
	add(n(-0x5555), n(-60000000000)) // the negative of another: no proof possible
	add(big.NewInt(0x5555), pow(64, 0))
	prover := bulletproofs.NewProver(64)
	inRange := func(x *com) bool { return x.v.BitLen() <= 64 }
	c.Par(len(set), func(i int) {
		s := set[i]
		v := new(big.Int).And(s.x.v, pow(64, -1)) // a prover that cheats proves the low bits
		var err error
		p := c.Do(func() string { return "prove" }, func() {
			s.pr, err = prover.CreateRangeProof(s.x.p, v, s.x.b, [32]byte{1}, [16]byte{})
		})
		if p != nil || err != nil {
			c.Violate("prove", fmt.Sprintf("range proof of %v: %v %v", s.x, err, p), nil)
		}
	})
	if c.Stopped() {
		return
	}
	_, by := fix.Headers()
	hdr := conv.Header(by["b1"].H)
	_, kern := memstore.Body()
	c.Par(len(set)*len(set), func(k int) {
		i, j := k%len(set), k/len(set)
		blk := &consensus.Block{Header: hdr, Outputs: consensus.OutputList{{Features: 1, Commit: set[i].x.p, RangeProof: set[j].pr}}, Kernels: consensus.TxKernelList{conv.Kernel(kern)}}
		want := i == j && inRange(set[i].x)
		var err error
		p := c.Do(func() string { return "verify" }, func() { err = blk.Validate() })
		c.Case(uint64(1<<60+k), true)
		if p != nil || (err == nil) != want {
			c.Violate(fmt.Sprintf("range proof/%v", err == nil), fmt.Sprintf("block with an output committing to %v and a proof made for %v: %v (panic %v), want valid=%v", set[i].x, set[j].x, err, p, want), nil)
			return
		}
		c.Outcome(fmt.Sprintf("range proof valid=%v", want))
		c.Sample(fmt.Sprint("range proof", want), func() interface{} { return fmt.Sprintf("commitment %v, proof for %v", set[i].x, set[j].x) })
	})
}
