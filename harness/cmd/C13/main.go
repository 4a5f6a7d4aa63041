// C13: block hashes, short ids and hash difficulties are the defined ones.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"time"

	"verif/conv"
	"verif/fix"
	"verif/hv"
	"verif/ref"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"golang.org/x/crypto/blake2b"
)

var c *hv.Ctx

func main() {
	hv.Main("C13", "exploration", "headers of every graph size with every single nonce bit set or flipped and every other member varied; inputs, outputs and kernels with every byte varied; short ids over every key and message byte and bit; hash difficulties over every position and boundary of the first 64 bits; every order of short id lists up to six. All compared with blake2b and a SipHash written from its definition. Non-trivial: not the recorded values of the tests.", run)
}

// sip is SipHash-2-4 of a message.
func sip(k0, k1 uint64, m []byte) uint64 {
	v := [4]uint64{k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573}
	n := len(m)
	last := uint64(n) << 56
	for ; len(m) >= 8; m = m[8:] {
		w := binary.LittleEndian.Uint64(m)
		v[3] ^= w
		ref.SipRound(&v)
		ref.SipRound(&v)
		v[0] ^= w
	}
	for i, b := range m {
		last |= uint64(b) << uint(8*i)
	}
	v[3] ^= last
	ref.SipRound(&v)
	ref.SipRound(&v)
	v[0] ^= last
	v[2] ^= 0xff
	for i := 0; i < 4; i++ {
		ref.SipRound(&v)
	}
	return v[0] ^ v[1] ^ v[2] ^ v[3]
}

func short(h, block []byte) []byte {
	s := sip(binary.LittleEndian.Uint64(block), binary.LittleEndian.Uint64(block[8:]), h)
	return binary.LittleEndian.AppendUint64(nil, s)[:6]
}

// cmp evaluates f and compares.
func cmp(kind string, id []byte, f func() []byte, want []byte, input func() interface{}) bool {
	var got []byte
	p := hv.Try(func() { got = f() })
	c.Case(hv.Hash64([]byte(kind), id), true)
	if p != nil || !bytes.Equal(got, want) {
		c.Violate(kind, fmt.Sprintf("%s: got %x (panic %v), want %x", kind, got, p, want), input())
		return false
	}
	c.Sample(kind, func() interface{} { return map[string]interface{}{"input": input(), "value": hex.EncodeToString(want)} })
	return true
}

func header(kind string, r *ref.Header) bool {
	h := conv.Header(r)
	want := r.Hash()
	in := func() interface{} { return hex.EncodeToString(r.Bytes()) }
	id := r.Bytes()
	if !cmp(kind+" header hash", id, func() []byte { return h.Hash() }, want[:], in) {
		return false
	}
	b := consensus.Block{Header: h}
	cb := consensus.CompactBlock{Header: h}
	pw := blake2b.Sum256(r.PowBytes())
	return cmp(kind+" block hash", id, func() []byte { return b.Hash() }, want[:], in) &&
		cmp(kind+" compact block hash", id, func() []byte { return cb.Hash() }, want[:], in) &&
		cmp(kind+" proof hash", id, func() []byte { return h.POW.Hash() }, pw[:], in) &&
		cmp(kind+" proof difficulty", id, func() []byte { return be(uint64(h.POW.ToDifficulty())) }, be(r.Diff()), in)
}

func bi(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func be(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

func run(ctx *hv.Ctx) {
	c = ctx
	_, by := fix.Headers()
	base := by["b1"].H
	clone := func() *ref.Header {
		h := *base
		h.Nonces = append([]uint32(nil), base.Nonces...)
		return &h
	}
	// every nonce bit of every graph size
	c.Par(32, func(i int) {
		eb := uint8(i + 1)
		mask := uint32(1<<uint(eb) - 1)
		for pat := 0; pat < 4; pat++ {
			for pos := 0; pos < 42; pos++ {
				for bit := uint(0); bit < uint(eb); bit++ {
					r := clone()
					r.EdgeBits = eb
					for j := range r.Nonces {
						switch pat {
						case 0:
							r.Nonces[j] = 0
						case 1:
							r.Nonces[j] = mask
						case 2:
							r.Nonces[j] = uint32(j*0x01010101) & mask
						case 3:
							r.Nonces[j] = base.Nonces[j] & mask
						}
					}
					r.Nonces[pos] ^= 1 << bit
					if !header("nonces", r) {
						return
					}
					if !c.Thorough && pat > 1 && bit%3 != 0 {
						break
					}
				}
			}
		}
	})
	// other members do not count
	vals := []uint64{0, 1, 2, 255, 256, 65535, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for _, v := range vals {
		for f := 0; f < 7; f++ {
			r := clone()
			switch f {
			case 0:
				r.Version = uint16(v)
			case 1:
				r.Height = v
			case 2:
				r.TD = v
			case 3:
				r.Scaling = uint32(v)
			case 4:
				r.Nonce = v
			case 5:
				r.OutputMmr = v
			case 6:
				r.KernelMmr = v
			}
			header("members", r)
		}
	}
	for i := 0; i < 32; i++ {
		for f := 0; f < 6; f++ {
			r := clone()
			p := []*[32]byte{&r.Previous, &r.PreviousRoot, &r.UTXORoot, &r.RangeProofRoot, &r.KernelRoot, &r.Offset}[f]
			p[i] ^= 0x5a
			header("members", r)
		}
	}
	for _, ts := range []int64{0, 1, -1, 1 << 40, time.Now().Unix()} {
		r := clone()
		r.TS = ts
		header("members", r)
	}
	h := conv.Header(base)
	for i, td := range vals {
		want := base.Hash()
		x := h
		x.Difficulty, x.TotalKernelSum = consensus.Difficulty(td), bytes.Repeat([]byte{byte(i)}, 33)
		cmp("unsent members", be(td), func() []byte { return x.Hash() }, want[:], func() interface{} { return td })
	}
	// the built-in genesis blocks
	for n, g := range map[string]*consensus.Block{"Testnet1": &chain.Testnet1, "Testnet2": &chain.Testnet2, "Testnet3": &chain.Testnet3, "Testnet4": &chain.Testnet4, "Mainnet": &chain.Mainnet} {
		w := blake2b.Sum256(ref.PackNonces(uint(g.Header.POW.EdgeBits), g.Header.POW.Nonces))
		cmp("genesis", []byte(n), func() []byte { return g.Hash() }, w[:], func() interface{} { return n })
	}
	// elements
	blk := ref.ParseBlock(fix.Block65927())
	var commits [][33]byte
	for i := 1; i <= 40; i++ {
		var x [33]byte
		copy(x[:], ref.Commitment(ref.MulPt(ref.GPt, bi(uint64(i*i*7919+i)))))
		commits = append(commits, x)
	}
	for f := 0; f < 256; f++ {
		for i := 0; i < 33; i++ {
			in := ref.Input{Features: uint8(f)}
			in.Commit[i] = byte(f + i)
			ci := conv.Input(in)
			if !cmp("input hash", in.Bytes(), func() []byte { return ci.Hash() }, in.Hash(), func() interface{} { return hex.EncodeToString(in.Bytes()) }) {
				break
			}
		}
		o := blk.Outputs[f%len(blk.Outputs)]
		o.Features = uint8(f)
		o.Commit = commits[f%len(commits)]
		co := conv.Output(o)
		cmp("output hash", o.Head(), func() []byte { return co.Hash() }, o.Hash(), func() interface{} { return hex.EncodeToString(o.Head()) })
		k := blk.Kernels[f%len(blk.Kernels)]
		k.Features = uint8(f)
		k.Excess = commits[(f+3)%len(commits)]
		ck := conv.Kernel(k)
		cmp("kernel hash", k.Bytes(), func() []byte { return ck.Hash() }, k.Hash(), func() interface{} { return hex.EncodeToString(k.Bytes()) })
	}
	for _, v := range vals {
		for j := 0; j < 2; j++ {
			k := blk.Kernels[0]
			if j == 0 {
				k.Fee = v
			} else {
				k.Lock = v
			}
			ck := conv.Kernel(k)
			cmp("kernel hash", k.Bytes(), func() []byte { return ck.Hash() }, k.Hash(), func() interface{} { return hex.EncodeToString(k.Bytes()) })
		}
	}
	for i := 0; i < 64; i++ {
		k := blk.Kernels[0]
		k.Sig[i] ^= 0xa5
		ck := conv.Kernel(k)
		cmp("kernel hash", k.Bytes(), func() []byte { return ck.Hash() }, k.Hash(), func() interface{} { return hex.EncodeToString(k.Bytes()) })
	}
	// the range proof does not count, whichever it is
	for _, a := range blk.Outputs {
		for _, b := range blk.Outputs {
			x := a
			x.Proof = b.Proof
			co := conv.Output(x)
			cmp("output hash with another proof", append(a.Head(), b.Head()...), func() []byte { return co.Hash() }, a.Hash(), func() interface{} { return hex.EncodeToString(a.Head()) })
		}
	}
	// short ids
	pats := [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), seq(32, 1, 1), seq(32, 7, 37), seq(32, 200, 91)}
	for _, k := range pats {
		for _, m := range pats {
			for i := -1; i < 256; i++ {
				for which := 0; which < 2; which++ {
					kk, mm := append([]byte(nil), k...), append([]byte(nil), m...)
					if i >= 0 {
						[][]byte{kk, mm}[which][i/8] ^= 1 << uint(i%8)
					}
					id := append(append([]byte(nil), kk...), mm...)
					if !cmp("short id", id, func() []byte { return consensus.Hash(mm).ShortID(kk) }, short(mm, kk), func() interface{} {
						return map[string]string{"block": hex.EncodeToString(kk), "hash": hex.EncodeToString(mm)}
					}) {
						return
					}
				}
			}
		}
	}
	for l := 0; l <= 70; l++ { // of hashes of any length
		m := seq(l, 3, 5)
		cmp("short id of any length", m, func() []byte { return consensus.Hash(m).ShortID(pats[3]) }, short(m, pats[3]), func() interface{} { return hex.EncodeToString(m) })
	}
	// arguments stay as they are
	kk, mm := seq(32, 1, 1), seq(32, 2, 3)
	consensus.Hash(mm).ShortID(kk)
	if !bytes.Equal(kk, seq(32, 1, 1)) || !bytes.Equal(mm, seq(32, 2, 3)) {
		c.Violate("short id argument", "ShortID changed its arguments", nil)
	}
	// sorting: every order of up to six ids that share prefixes
	all := [][]byte{{0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 1, 0}, {1, 0, 0, 0, 0, 0}, {127, 255, 255, 255, 255, 255}, {128, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 254}, {255, 255, 255, 255, 255, 255}, {0, 1, 255, 0, 0, 0}}
	var perms func(pre []int, used int)
	perms = func(pre []int, used int) {
		if len(pre) > 1 {
			l := consensus.ShortIDList{}
			for _, i := range pre {
				l = append(l, append(consensus.ShortID(nil), all[i]...))
			}
			want := append(consensus.ShortIDList(nil), l...)
			sort.SliceStable(want, func(i, j int) bool { return bytes.Compare(want[i], want[j]) < 0 })
			cmp("order", []byte(fmt.Sprint(pre)), func() []byte { sort.Sort(l); return []byte(fmt.Sprint(l)) }, []byte(fmt.Sprint(want)), func() interface{} { return pre })
		}
		if len(pre) < 6 {
			for i := range all {
				if used>>uint(i)&1 == 0 {
					perms(append(pre[:len(pre):len(pre)], i), used|1<<uint(i))
				}
			}
		}
	}
	perms(nil, 0)
	// difficulties of hashes
	diff := func(n uint64, tail byte) {
		hash := append(be(n), bytes.Repeat([]byte{tail}, 24)...)
		d := n
		if d == 0 {
			d = 1
		}
		cmp("difficulty", hash, func() []byte { return be(uint64(consensus.MinimumDifficulty.FromHash(hash))) }, be(0x0fffffffffffffff/d), func() interface{} { return hex.EncodeToString(hash) })
	}
	for _, tail := range []byte{0, 1, 255} {
		for s := uint(0); s < 64; s++ {
			for d := int64(-3); d <= 3; d++ {
				diff(uint64(int64(1)<<s)+uint64(d), tail)
				diff(0x0fffffffffffffff>>s+uint64(d), tail)
			}
			for b := uint64(0); b < 256; b++ {
				diff(b<<s, tail)
			}
		}
		for n := uint64(0); n < 4096; n++ {
			diff(n, tail)
			diff(0x0fffffffffffffff/(n+1), tail)
			diff(0x0fffffffffffffff/(n+1)+1, tail)
			diff(^n, tail)
		}
	}
	for _, d := range []consensus.Difficulty{0, 1, 5, 1<<64 - 1} { // whatever the receiver
		cmp("difficulty receiver", be(uint64(d)), func() []byte { return be(uint64(d.FromHash(seq(32, 0, 9)))) }, be(ref.DiffOf(seq(32, 0, 9))), func() interface{} { return d })
	}
}

func seq(n, from, step int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(from + i*step)
	}
	return b
}
