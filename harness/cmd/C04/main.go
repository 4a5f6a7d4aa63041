// C04: a block is accepted exactly when its body obeys the block rules.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"sync"
	"time"

	"verif/fix"
	"verif/hv"
	"verif/ref"

	"github.com/dblokhin/gringo/consensus"
)

var c *hv.Ctx

func main() {
	hv.Main("C04", "exploration", "bodies around real headers: every sequence of up to three outputs over (three real outputs) x (coinbase or not); every one of these that passes with each output in turn given another's proof, another's commitment or a corrupted proof; every sequence of up to three kernels over a set of kernels (coinbase or not, fee, lock height around the block's height, valid and invalid signatures), longer lists with one bad kernel at every position; every sequence of up to four inputs. Each block is read from its wire bytes, validated, and decided by an independent reference; for kernels alone also every single-bit change. Non-trivial: at most one rule is broken.", run)
}

type job struct {
	kind string
	b    ref.Block
	want bool
}

var proofs = map[string]bool{} // valid commit+proof pairs

func proofOK(o ref.Output) bool { return proofs[string(o.Commit[:])+string(o.Proof)] }

func run(ctx *hv.Ctx) {
	c = ctx
	_, by := fix.Headers()
	rec := ref.ParseBlock(fix.Block65927())
	if rec == nil || len(rec.Inputs) != 1 || len(rec.Outputs) != 3 || len(rec.Kernels) != 2 || !bytes.Equal(rec.Bytes(), fix.Block65927()) {
		panic("recorded block")
	}
	for _, o := range rec.Outputs {
		proofs[string(o.Commit[:])+string(o.Proof)] = true
	}
	if !rec.BodyValid(proofOK) {
		panic("the reference rejects the recorded block")
	}
	h := rec.Head.Height
	var jobs []job
	add := func(kind string, b ref.Block) {
		b.Inputs = append([]ref.Input(nil), b.Inputs...)
		b.Outputs = append([]ref.Output(nil), b.Outputs...)
		b.Kernels = append([]ref.Kernel(nil), b.Kernels...)
		jobs = append(jobs, job{kind, b, false})
	}
	// elements
	outs := []ref.Output{}
	for _, o := range rec.Outputs {
		for f := byte(0); f < 2; f++ {
			o.Features = f
			outs = append(outs, o)
		}
	}
	coin := func() ref.Output { // the coinbase output of the recorded block
		for _, o := range rec.Outputs {
			if o.Features == 1 {
				return o
			}
		}
		panic("no coinbase")
	}()
	priv := big.NewInt(0x1234567)
	pub := ref.MulPt(ref.GPt, priv)
	knonce := int64(1000)
	kernel := func(feat byte, fee, lock uint64) ref.Kernel {
		k := ref.Kernel{Features: feat, Fee: fee, Lock: lock}
		copy(k.Excess[:], ref.Commitment(pub))
		knonce += 7
		k.Sig = ref.Sign(priv, ref.Message(fee, lock), big.NewInt(knonce))
		return k
	}
	coinK := kernel(1, 0, 0)
	base := ref.Block{Head: rec.Head, Outputs: []ref.Output{coin}, Kernels: []ref.Kernel{coinK}}
	sortOuts := func(l []ref.Output) []ref.Output {
		l = append([]ref.Output(nil), l...)
		sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].Hash(), l[j].Hash()) < 0 })
		return l
	}
	sortKers := func(l []ref.Kernel) []ref.Kernel {
		l = append([]ref.Kernel(nil), l...)
		sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].Hash(), l[j].Hash()) < 0 })
		return l
	}

	// the recorded block, and every permutation of its lists
	add("recorded", *rec)
	for _, p := range perms(3) {
		b := *rec
		b.Outputs = []ref.Output{rec.Outputs[p[0]], rec.Outputs[p[1]], rec.Outputs[p[2]]}
		add("recorded/outputs permuted", b)
	}
	{
		b := *rec
		b.Kernels = []ref.Kernel{rec.Kernels[1], rec.Kernels[0]}
		add("recorded/kernels permuted", b)
	}

	// outputs: every sequence
	var passing [][]ref.Output
	for n := 0; n <= 3; n++ {
		each(len(outs), n, func(ix []int) {
			b := base
			b.Outputs = nil
			for _, i := range ix {
				b.Outputs = append(b.Outputs, outs[i])
			}
			add(fmt.Sprintf("outputs/%d", n), b)
			if b.BodyValid(proofOK) {
				passing = append(passing, b.Outputs)
			}
		})
	}
	// outputs: a bad one in every place of every passing list
	flips := []int{0, 31, 40, 64, 65, 66, 97, 130, 161, 192, 193, 225, 257, 289, 320, 321, 352, 353, 354, 355, 400, 500, 674}
	bad := func(kind string, l []ref.Output, i int, f func(o *ref.Output)) {
		b := base
		b.Outputs = append([]ref.Output(nil), l...)
		b.Outputs[i].Proof = append([]byte(nil), b.Outputs[i].Proof...)
		f(&b.Outputs[i])
		b.Outputs = sortOuts(b.Outputs)
		add(kind, b)
	}
	for pi, l := range passing {
		for i := range l {
			i := i
			other := rec.Outputs[0]
			if other.Commit == l[i].Commit {
				other = rec.Outputs[1]
			}
			bad(fmt.Sprintf("bad output/other proof/coinbase=%v", l[i].Features == 1), l, i, func(o *ref.Output) { o.Proof = append([]byte(nil), other.Proof...) })
			if len(l) == 1 || pi%3 == 0 || c.Thorough {
				bad("bad output/commitment negated", l, i, func(o *ref.Output) { o.Commit[0] ^= 1 })
				bad("bad output/first scalar", l, i, func(o *ref.Output) { o.Proof[31] ^= 1 })
			}
		}
	}
	for _, f := range flips {
		f := f
		bad(fmt.Sprintf("bad output/byte %d", f), []ref.Output{coin}, 0, func(o *ref.Output) { o.Proof[f] ^= 1 })
		if c.Thorough {
			for _, o2 := range rec.Outputs {
				o2.Features = 1
				for bit := byte(2); bit != 0; bit <<= 1 {
					bad(fmt.Sprintf("bad output/byte %d", f), []ref.Output{o2}, 0, func(o *ref.Output) { o.Proof[f] ^= bit })
				}
			}
		}
	}
	// longer lists of outputs, the bad one in every place
	plain := func() (l []ref.Output) {
		for _, o := range rec.Outputs {
			if o.Commit != coin.Commit {
				o.Features = 0
				l = append(l, o)
			}
		}
		return
	}()
	long := sortOuts([]ref.Output{coin, plain[0], plain[0], plain[1], plain[1]})
	{
		b := base
		b.Outputs = long
		add("outputs/5", b)
	}
	for i := range long {
		bad("bad output/of five", long, i, func(o *ref.Output) { o.Proof[70] ^= 4 })
	}
	// lists beyond any size of batch: the bad one at every place (its hash,
	// which decides the place, does not cover the proof)
	for _, n := range []int{16, 17, 33, 65} {
		l := []ref.Output{coin}
		for i := 1; i < n; i++ {
			l = append(l, plain[i%len(plain)])
		}
		l = sortOuts(l)
		b := base
		b.Outputs = l
		add(fmt.Sprintf("outputs/%d", n), b)
		for i := range l {
			bad(fmt.Sprintf("bad output/of %d", n), l, i, func(o *ref.Output) { o.Proof[70] ^= 4 })
		}
		for _, i := range []int{0, n / 2, n - 2} { // two exchanged that differ
			for j := i + 1; j < n; j++ {
				if !bytes.Equal(l[i].Head(), l[j].Head()) {
					b := base
					b.Outputs = append([]ref.Output(nil), l...)
					b.Outputs[i], b.Outputs[j] = l[j], l[i]
					add(fmt.Sprintf("outputs/%d exchanged", n), b)
					break
				}
			}
		}
	}
	// features besides the coinbase flag decide nothing
	for _, o := range rec.Outputs {
		for _, f := range []int{2, 3, 4, 5, 7, 8, 9, 0x7f, 0x80, 0x81, 0xfe, 0xff} {
			o.Features = byte(f)
			b := base
			b.Outputs = []ref.Output{o}
			add("output features", b)
			for _, p := range rec.Outputs {
				for g := byte(0); g < 2; g++ {
					p.Features = g
					b.Outputs = sortOuts([]ref.Output{o, p})
					add("output features", b)
				}
			}
		}
	}
	for f := 2; f < 256; f++ {
		b := base
		b.Kernels = []ref.Kernel{kernel(byte(f), 3, h)}
		add("kernel features", b)
		if f < 10 || f > 250 || f&(f-1) == 0 {
			b.Kernels = sortKers([]ref.Kernel{b.Kernels[0], coinK})
			add("kernel features", b)
		}
	}

	// kernels
	max := ^uint64(0)
	good := []ref.Kernel{coinK, kernel(0, 0, 0), kernel(0, 7, h), kernel(1, 3, h-1), kernel(0, max, 1)}
	badKs := []ref.Kernel{kernel(0, 1, h+1), kernel(0, 1, max), kernel(1, 1, h+1)}
	mod := func(k ref.Kernel, f func(k *ref.Kernel)) {
		f(&k)
		badKs = append(badKs, k)
	}
	mod(good[1], func(k *ref.Kernel) { k.Sig[63] ^= 1 })
	mod(good[1], func(k *ref.Kernel) { k.Fee++ })
	mod(good[0], func(k *ref.Kernel) { k.Sig[40] ^= 1 })
	mod(good[2], func(k *ref.Kernel) { k.Lock-- })
	mod(good[2], func(k *ref.Kernel) { k.Excess[0] ^= 1 })
	mod(good[0], func(k *ref.Kernel) { k.Excess[20] ^= 1 })
	mod(good[3], func(k *ref.Kernel) { k.Sig = good[0].Sig })
	mod(good[1], func(k *ref.Kernel) { k.Sig = [64]byte{} })
	for i := range good {
		if !good[i].SigValid() {
			panic("reference signature")
		}
	}
	all := append(append([]ref.Kernel(nil), good...), badKs...)
	kern := func(kind string, l []ref.Kernel) {
		b := base
		b.Kernels = l
		add(kind, b)
	}
	for n := 0; n <= 1; n++ {
		each(len(all), n, func(ix []int) {
			var l []ref.Kernel
			for _, i := range ix {
				l = append(l, all[i])
			}
			kern(fmt.Sprintf("kernels/%d", n), l)
		})
	}
	each(len(good), 2, func(ix []int) { kern("kernels/2", []ref.Kernel{good[ix[0]], good[ix[1]]}) })
	for _, k := range badKs {
		for _, g := range good[:2] {
			kern("kernels/2 one bad", sortKers([]ref.Kernel{k, g}))
			if c.Thorough {
				kern("kernels/3 one bad", sortKers([]ref.Kernel{k, g, good[4]}))
			}
		}
	}
	each(len(good), 3, func(ix []int) {
		if c.Thorough || ix[0] != ix[1] && ix[1] != ix[2] && ix[0] != ix[2] {
			kern("kernels/3", []ref.Kernel{good[ix[0]], good[ix[1]], good[ix[2]]})
		}
	})
	// one bad kernel at every place of a longer list, both kinds of bad
	ks := []ref.Kernel{coinK}
	for i := uint64(0); i < 7; i++ {
		ks = append(ks, kernel(0, i, i))
	}
	ks = sortKers(ks)
	kern("kernels/8", ks)
	for i := range ks {
		for v := 0; v < 2; v++ {
			l := append([]ref.Kernel(nil), ks...)
			feat := l[i].Features
			if v == 0 {
				l[i].Sig[50] ^= 8
			} else {
				l[i] = kernel(feat, 5, h+1)
			}
			// keep the place: find a change that sorts there, else sort
			kern(fmt.Sprintf("kernels/8 one bad/%d", v), sortKers(l))
		}
		l := append([]ref.Kernel(nil), ks...)
		if i > 0 {
			l[i-1], l[i] = l[i], l[i-1]
			kern("kernels/8 neighbours exchanged", l)
		}
	}
	// lists beyond any size of batch, one bad at every place
	for _, n := range []int{17, 40} {
		ks := []ref.Kernel{coinK}
		for i := 1; i < n; i++ {
			ks = append(ks, kernel(0, uint64(i), uint64(i)))
		}
		ks = sortKers(ks)
		kern(fmt.Sprintf("kernels/%d", n), ks)
		for i := range ks {
			l := append([]ref.Kernel(nil), ks...)
			// of the changes of the signature, one that keeps the place
			for v := 0; v < 4096; v++ {
				l[i].Sig = ks[i].Sig
				l[i].Sig[40+v/256] ^= byte(v)
				if v%256 != 0 && sort.SliceIsSorted(l, func(a, b int) bool { return bytes.Compare(l[a].Hash(), l[b].Hash()) < 0 }) {
					break
				}
			}
			kern(fmt.Sprintf("kernels/%d one bad", n), sortKers(l))
			if i > 0 {
				l := append([]ref.Kernel(nil), ks...)
				l[i-1], l[i] = l[i], l[i-1]
				kern(fmt.Sprintf("kernels/%d neighbours exchanged", n), l)
			}
		}
	}

	// inputs
	var ins []ref.Input
	for i := 0; i < 4; i++ {
		in := rec.Inputs[0]
		in.Features = byte(i % 2)
		p := ref.MulPt(ref.GPt, big.NewInt(int64(77+i)))
		copy(in.Commit[:], ref.Commitment(p))
		ins = append(ins, in)
	}
	top := 3
	for n := 0; n <= top; n++ {
		each(len(ins), n, func(ix []int) {
			b := base
			for _, i := range ix {
				b.Inputs = append(b.Inputs, ins[i])
			}
			add(fmt.Sprintf("inputs/%d", n), b)
		})
	}
	for _, p := range perms(4) {
		b := base
		for _, i := range p {
			b.Inputs = append(b.Inputs, ins[i])
		}
		add("inputs/4", b)
	}

	// inputs with other features; long lists
	for f := 0; f < 256; f++ {
		b := base
		in := ins[0]
		in.Features = byte(f)
		b.Inputs = []ref.Input{in}
		add("input features", b)
	}
	{
		var l []ref.Input
		for i := 0; i < 40; i++ {
			in := ins[0]
			copy(in.Commit[:], ref.Commitment(ref.MulPt(ref.GPt, big.NewInt(int64(1000+i)))))
			l = append(l, in)
		}
		sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].Hash(), l[j].Hash()) < 0 })
		b := base
		b.Inputs = l
		add("inputs/40", b)
		for i := 1; i < len(l); i++ {
			b.Inputs = append([]ref.Input(nil), l...)
			b.Inputs[i-1], b.Inputs[i] = l[i], l[i-1]
			add("inputs/40 neighbours exchanged", b)
		}
	}

	// other headers: lock heights are relative to the header's height, and an
	// invalid header never passes
	for _, n := range []string{"b1", "b2", "w70", "v1_94999", "v2_95000", "v2_249999", "v3_250000", "v3_499999", "p30_1"} {
		f := by[n]
		if f == nil {
			continue
		}
		hh := f.H.Height
		for _, lock := range []uint64{0, hh - 1, hh, hh + 1} {
			b := base
			b.Head = f.H
			b.Kernels = []ref.Kernel{kernel(1, 9, lock)}
			add("header "+n, b)
			if !c.Thorough && hh > 1 && lock == hh {
				continue
			}
			b.Kernels = sortKers([]ref.Kernel{kernel(1, 9, 0), kernel(0, 9, lock)})
			add("header "+n, b)
		}
	}
	for name, f := range by {
		b := base
		b.Head = f.H
		b.Kernels = []ref.Kernel{coinK}
		if f.H.Height > 0 && (name == "small28" || ref.VersionAt(f.H.Height) != f.H.Version) {
			add("header "+name, b)
		}
	}
	for _, f := range []func(h *ref.Header){
		func(h *ref.Header) { h.Version = 2 }, func(h *ref.Header) { h.TS = 1 << 40 }, func(h *ref.Header) { h.Nonces[0]++ },
		func(h *ref.Header) { h.Nonce++ }, func(h *ref.Header) { h.EdgeBits = 30 }, func(h *ref.Header) { h.Scaling = 0 },
		func(h *ref.Header) { h.KernelRoot[4] ^= 1 }, func(h *ref.Header) { h.Previous[0] ^= 1 },
	} {
		hd := *rec.Head
		hd.Nonces = append([]uint32(nil), hd.Nonces...)
		f(&hd)
		b := *rec
		b.Head = &hd
		add("invalid header", b)
	}

	// expectations (the reference is slow: once per kernel)
	c.Par(len(jobs), func(i int) { jobs[i].want = want(&jobs[i].b) })
	c.Set("blocks", len(jobs))
	n := 0
	for _, j := range jobs {
		if j.want {
			n++
		}
	}
	c.Set("valid_blocks", n)
	// slow ones first is not needed; the order is that of the enumeration
	c.Par(len(jobs), func(i int) {
		if c.Stopped() {
			return
		}
		j := jobs[i]
		raw := j.b.Bytes()
		var b consensus.Block
		var rerr, verr error
		p := c.Do(func() string { return j.kind }, func() {
			if rerr = b.Read(bytes.NewReader(raw)); rerr == nil {
				verr = b.Validate()
			}
		})
		got := p == nil && rerr == nil && verr == nil
		c.Case(hv.Hash64(raw), true)
		c.Outcome(fmt.Sprintf("%s valid=%v", j.kind, j.want))
		replay := func() interface{} {
			return map[string]interface{}{"kind": j.kind, "block": fmt.Sprintf("%x", raw), "read_error": fmt.Sprint(rerr), "validate_error": fmt.Sprintf("%.200s", fmt.Sprint(verr)), "inputs": len(j.b.Inputs), "outputs": len(j.b.Outputs), "kernels": len(j.b.Kernels)}
		}
		if p != nil {
			c.Violate(j.kind+"/panic", fmt.Sprintf("%s: panic %v", j.kind, p), replay())
		} else if got != j.want {
			c.Violate(fmt.Sprintf("%s/accepted=%v", j.kind, got), fmt.Sprintf("%s: block accepted=%v, the rule says %v (read: %v, validate: %.300v)", j.kind, got, j.want, rerr, verr), replay())
		} else {
			c.Sample(fmt.Sprintf("%s/%v", j.kind, got), func() interface{} {
				return map[string]interface{}{"kind": j.kind, "outputs": desc(j.b.Outputs), "kernels": len(j.b.Kernels), "error": fmt.Sprintf("%.120s", fmt.Sprint(verr))}
			})
		}
	})
	if !c.Stopped() {
		kernels(rec, good, badKs)
	}
}

// kernels alone: every single-bit change.
func kernels(rec *ref.Block, good, bad []ref.Kernel) {
	list := append([]ref.Kernel(nil), rec.Kernels...)
	if c.Thorough {
		list = append(list, good...)
	}
	for _, k := range append(append([]ref.Kernel(nil), good...), bad...) {
		one("kernel", k)
	}
	for _, k := range list {
		k := k
		raw := k.Bytes()
		c.Par(len(raw)*8, func(i int) {
			b := append([]byte(nil), raw...)
			b[i/8] ^= 1 << uint(i%8)
			var k2 ref.Kernel
			k2.Features = b[0]
			for j := 0; j < 8; j++ {
				k2.Fee = k2.Fee<<8 | uint64(b[1+j])
				k2.Lock = k2.Lock<<8 | uint64(b[9+j])
			}
			copy(k2.Excess[:], b[17:50])
			copy(k2.Sig[:], b[50:])
			one(fmt.Sprintf("kernel bit %d", i), k2)
		})
	}
}

func one(kind string, k ref.Kernel) {
	raw := k.Bytes()
	want := sigValid(k)
	var tk consensus.TxKernel
	var rerr, verr error
	p := c.Do(func() string { return kind }, func() {
		if rerr = tk.Read(bytes.NewReader(raw)); rerr == nil {
			verr = tk.Validate()
		}
	})
	got := p == nil && rerr == nil && verr == nil
	c.Case(hv.Hash64(raw), true)
	c.Outcome(fmt.Sprintf("kernel alone valid=%v", want))
	if p != nil || got != want {
		c.Violate("kernel/"+fmt.Sprint(got), fmt.Sprintf("%s: kernel %x accepted=%v, want %v (read %v, validate %v, panic %v)", kind, raw, got, want, rerr, verr, p), fmt.Sprintf("%x", raw))
	}
}

func desc(os []ref.Output) (s []string) {
	for _, o := range os {
		s = append(s, fmt.Sprintf("%x f=%d proof ok=%v", o.Commit[:4], o.Features, proofOK(o)))
	}
	return
}

var sigs sync.Map

func sigValid(k ref.Kernel) bool {
	key := fmt.Sprintf("%x", k.Bytes()[1:])
	if v, ok := sigs.Load(key); ok {
		return v.(bool)
	}
	v := k.SigValid()
	sigs.Store(key, v)
	return v
}

var heads sync.Map

func want(b *ref.Block) bool {
	key := fmt.Sprintf("%x", b.Head.Bytes())
	v, ok := heads.Load(key)
	if !ok {
		v = b.Head.Valid(now)
		heads.Store(key, v)
	}
	return v.(bool) && bodyValid(b)
}

func bodyValid(b *ref.Block) bool {
	// as ref.BodyValid, with the signatures cached
	for _, k := range b.Kernels {
		if !sigValid(k) {
			return false
		}
	}
	c := *b
	c.Kernels = nil
	co, ck := 0, 0
	var hk [][]byte
	for _, k := range b.Kernels {
		ck += int(k.Features & 1)
		hk = append(hk, k.Hash())
		if k.Lock > b.Head.Height {
			return false
		}
	}
	var hi, ho [][]byte
	for _, o := range b.Outputs {
		co += int(o.Features & 1)
		ho = append(ho, o.Hash())
		if !proofOK(o) {
			return false
		}
	}
	for _, i := range b.Inputs {
		hi = append(hi, i.Hash())
	}
	return co == 1 && ck == 1 && ref.Sorted(hi) && ref.Sorted(ho) && ref.Sorted(hk)
}

func perms(n int) (out [][]int) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
	return
}

// each calls f with every sequence of n indices below m.
func each(m, n int, f func([]int)) {
	ix := make([]int, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(ix)
			return
		}
		for i := 0; i < m; i++ {
			ix[k] = i
			rec(k + 1)
		}
	}
	rec(0)
}

// the headers used are from 2018 and validated by the real clock, so they are
// judged as of this year
var now = time.Now()
