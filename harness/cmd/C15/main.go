// C15: kernel signatures verify for the signed message and key only.
package main

import (
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"math/big"
	"sync"

	"verif/hv"
	"verif/ref"

	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
)

var c *hv.Ctx

func main() {
	hv.Main("C15", "exploration", "signing with every boundary private key, message and output of the random source (a scripted source, including values it must reject), each signature verified directly, after serialisation and by a reference of the scheme; every single-bit change of signature, key and message, negations, values off the curve and the point at infinity; all signatures against all keys and messages. Non-trivial: all.", run)
}

// source yields fixed blocks of 32 bytes, the last one forever incremented.
type source struct {
	list [][]byte
	pos  int
	last *big.Int
}

func (s *source) Read(p []byte) (int, error) {
	for i := 0; i < len(p); {
		if s.pos/32 < len(s.list) {
			b := s.list[s.pos/32]
			n := copy(p[i:], b[s.pos%32:])
			s.pos += n
			i += n
			continue
		}
		if s.last == nil {
			s.last = big.NewInt(4321)
		}
		s.last.Add(s.last, big.NewInt(1))
		b := ref.B32(s.last)
		s.list = append(s.list, b[:])
	}
	return len(p), nil
}

var signMu sync.Mutex

func pt(p ref.Pt) bulletproofs.Point {
	if p.X == nil {
		return bulletproofs.Point{X: new(big.Int), Y: new(big.Int)}
	}
	return bulletproofs.Point{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

type signed struct {
	priv *big.Int
	pub  ref.Pt
	msg  [32]byte
	k    string
	sig  [64]byte
	r    ref.Pt
	s    *big.Int
}

// verify runs the code on points.
func verify(kind string, pub bulletproofs.Point, msg [32]byte, sig secp256k1zkp.Signature, want bool, in func() interface{}) bool {
	var got bool
	p := c.Do(func() string { return kind }, func() { got = secp256k1zkp.VerifySignature(pub, msg, sig) })
	c.Case(hv.Hash64([]byte(kind), pub.X.Bytes(), []byte{0}, pub.Y.Bytes(), msg[:], sig.R.X.Bytes(), []byte{1}, sig.R.Y.Bytes(), sig.S.Bytes()), true)
	if p != nil || got != want {
		c.Violate(fmt.Sprintf("%s/%v", kind, got), fmt.Sprintf("%s: verified=%v (panic %v), want %v", kind, got, p, want), in())
		return false
	}
	c.Outcome(fmt.Sprintf("%s %v", kind, want))
	c.Sample(kind, in)
	return true
}

func bytesVerify(kind string, pub ref.Pt, msg [32]byte, sig [64]byte, in func() interface{}) bool {
	var d secp256k1zkp.Signature
	if p := hv.Try(func() { d = secp256k1zkp.DecodeSignature(sig) }); p != nil {
		c.Violate(kind+"/decode", fmt.Sprint(p), in())
		return false
	}
	return verify(kind, pt(pub), msg, d, ref.Verify(pub, msg, sig), in)
}

func run(ctx *hv.Ctx) {
	c = ctx
	one := big.NewInt(1)
	n := func(d int64) *big.Int { return new(big.Int).Add(ref.N, big.NewInt(d)) }
	half := new(big.Int).Rsh(ref.N, 1)
	ints := []*big.Int{one, big.NewInt(2), big.NewInt(3), big.NewInt(1234567), new(big.Int).Lsh(one, 128), new(big.Int).Lsh(one, 255), half, new(big.Int).Add(half, one), n(-1), n(-2), n(-3)}
	for i := int64(4); i < 40; i++ {
		ints = append(ints, new(big.Int).Mod(new(big.Int).Exp(big.NewInt(7919), big.NewInt(i*i), nil), ref.N))
	}
	privs := ints[:11]
	if c.Thorough {
		privs = ints
	}
	var msgs [][32]byte
	for _, f := range [][2]uint64{{0, 0}, {1, 0}, {0, 1}, {8000000, 65927}, {1<<64 - 1, 1<<64 - 1}} {
		msgs = append(msgs, ref.Message(f[0], f[1]))
	}
	var odd [32]byte
	for i := range odd {
		odd[i] = byte(255 - 7*i)
	}
	msgs = append(msgs, odd)

	// messages
	vals := []uint64{0, 1, 255, 256, 1 << 16, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 0x0102030405060708}
	for _, f := range vals {
		for _, l := range vals {
			got := secp256k1zkp.ComputeMessage(f, l)
			c.Case(hv.Hash64([]byte(fmt.Sprint(f, l))), true)
			if got != ref.Message(f, l) {
				c.Violate("message", fmt.Sprintf("message of fee %d, lock height %d is %x", f, l, got), []uint64{f, l})
			}
		}
	}

	// signing, with everything the source can yield
	type job struct {
		priv *big.Int
		msg  [32]byte
		src  []*big.Int
	}
	var jobs []job
	for i, x := range privs {
		for j, m := range msgs {
			for l, k := range ints {
				if i > 3 && j > 2 && l > 10 && !c.Thorough {
					continue
				}
				jobs = append(jobs, job{x, m, []*big.Int{k}})
			}
		}
	}
	// values that are not scalars, and zero, must not lead to a bad signature
	all1 := new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
	for _, x := range privs[:4] {
		for _, src := range [][]*big.Int{{n(0), big.NewInt(5)}, {n(1), big.NewInt(5)}, {n(2), big.NewInt(5)}, {n(1000), n(5), all1, big.NewInt(9)}, {all1, n(-1)}, {new(big.Int), big.NewInt(6)}, {new(big.Int), new(big.Int), n(0), big.NewInt(77)}} {
			jobs = append(jobs, job{x, msgs[3], src})
		}
	}
	var list []*signed
	real := rand.Reader
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		pub := ref.MulPt(ref.GPt, j.priv)
		in := func() interface{} {
			return map[string]string{"private key": j.priv.Text(16), "message": hex.EncodeToString(j.msg[:]), "random source": fmt.Sprintf("%x", j.src)}
		}
		var sig secp256k1zkp.Signature
		signMu.Lock()
		s := &source{}
		for _, x := range j.src {
			b := ref.B32(x)
			s.list = append(s.list, b[:])
		}
		rand.Reader = s
		p := c.Do(func() string { return "sign" }, func() { sig = secp256k1zkp.SignMessage(pt(pub), *new(big.Int).Set(j.priv), j.msg) })
		rand.Reader = real
		signMu.Unlock()
		if p != nil {
			c.Violate("sign/panic", fmt.Sprint(p), in())
			return
		}
		if !verify("fresh signature", pt(pub), j.msg, sig, true, in) {
			return
		}
		var b [64]byte
		if p := hv.Try(func() { b = sig.Bytes() }); p != nil {
			c.Violate("bytes/panic", fmt.Sprint(p), in())
			return
		}
		if !ref.Verify(pub, j.msg, b) {
			c.Violate("fresh signature, reference", "the serialised signature is invalid by the reference", in())
			return
		}
		if !bytesVerify("decoded signature", pub, j.msg, b, in) {
			return
		}
		if d := secp256k1zkp.DecodeSignature(b); d.Bytes() != b {
			c.Violate("round trip", "decoding and encoding changes the signature", in())
		}
		// one made by the reference with this nonce
		last := j.src[len(j.src)-1]
		if last.Sign() > 0 && last.Cmp(ref.N) < 0 {
			bytesVerify("reference signature", pub, j.msg, ref.Sign(j.priv, j.msg, last), in)
		}
		r, _ := ref.Lift(new(big.Int).SetBytes(b[:32]))
		signMu.Lock()
		list = append(list, &signed{j.priv, pub, j.msg, fmt.Sprintf("%x", j.src), b, r, new(big.Int).SetBytes(b[32:])})
		signMu.Unlock()
	})
	if c.Stopped() {
		return
	}
	// two signatures with the real source differ
	a := secp256k1zkp.SignMessage(pt(ref.GPt), *one, msgs[0])
	b := secp256k1zkp.SignMessage(pt(ref.GPt), *one, msgs[0])
	if a.Bytes() == b.Bytes() {
		c.Violate("random", "two signatures use the same nonce", nil)
	}

	// alterations of a few signatures (by key and nonce of both signs)
	var bases []*signed
	want := 6
	if c.Thorough {
		want = 60
	}
	// the order of list depends on the schedule: choose by content
	pick := map[string]*signed{}
	var keys []string
	for _, s := range list {
		k := fmt.Sprintf("%v/%v/%x/%s", s.pub.Y.Bit(0), ref.Residue(s.pub.Y), s.msg[31], s.priv.Text(16))
		if pick[k] == nil {
			pick[k] = s
			keys = append(keys, k)
		} else if s.k < pick[k].k {
			pick[k] = s
		}
	}
	sortStrings(keys)
	for i, k := range keys {
		if i%(1+len(keys)/want) == 0 {
			bases = append(bases, pick[k])
		}
	}
	c.Set("altered_signatures", len(bases))
	var tasks []func()
	for _, s := range bases {
		s := s
		in := func(what string) func() interface{} {
			return func() interface{} {
				return map[string]string{"alteration": what, "private key": s.priv.Text(16), "message": hex.EncodeToString(s.msg[:]), "signature": hex.EncodeToString(s.sig[:])}
			}
		}
		for bit := 0; bit < 512; bit++ {
			sig := s.sig
			sig[bit/8] ^= 1 << uint(bit%8)
			w := fmt.Sprintf("bit %d of the signature", bit)
			tasks = append(tasks, func() { bytesVerify("changed signature", s.pub, s.msg, sig, in(w)) })
		}
		for bit := 0; bit < 256; bit++ {
			m := s.msg
			m[bit/8] ^= 1 << uint(bit%8)
			w := fmt.Sprintf("bit %d of the message", bit)
			tasks = append(tasks, func() { bytesVerify("changed message", s.pub, m, s.sig, in(w)) })
		}
		// points
		test := func(kind string, pub ref.Pt, r ref.Pt, sc *big.Int, want bool) {
			tasks = append(tasks, func() {
				verify(kind, pt(pub), s.msg, secp256k1zkp.Signature{S: *new(big.Int).Set(sc), R: pt(r)}, want, in(kind))
			})
		}
		off := func(p ref.Pt, d int64) ref.Pt {
			return ref.Pt{X: p.X, Y: new(big.Int).Mod(new(big.Int).Add(p.Y, big.NewInt(d)), ref.P)}
		}
		inf := ref.Pt{}
		negS := new(big.Int).Sub(ref.N, s.s)
		test("unchanged", s.pub, s.r, s.s, true)
		test("S negated", s.pub, s.r, negS, false)
		test("R negated", s.pub, ref.NegPt(s.r), s.s, false)
		test("R and S negated", s.pub, ref.NegPt(s.r), negS, ref.VerifyPoints(s.pub, s.msg, ref.NegPt(s.r), negS))
		test("key negated", ref.NegPt(s.pub), s.r, s.s, false)
		test("all negated", ref.NegPt(s.pub), ref.NegPt(s.r), negS, ref.VerifyPoints(ref.NegPt(s.pub), s.msg, ref.NegPt(s.r), negS))
		test("S plus one", s.pub, s.r, new(big.Int).Mod(new(big.Int).Add(s.s, one), ref.N), false)
		test("S zero", s.pub, s.r, new(big.Int), false)
		test("R at infinity", s.pub, inf, s.s, false)
		test("key at infinity", inf, s.r, s.s, false)
		for _, d := range []int64{1, -1, 2, 1000} {
			test("R off the curve", s.pub, off(s.r, d), s.s, false)
			test("key off the curve", off(s.pub, d), s.r, s.s, false)
		}
		for m := int64(2); m < 6; m++ { // multiples
			test("other key", ref.MulPt(s.pub, big.NewInt(m)), s.r, s.s, false)
			test("other R", s.pub, ref.MulPt(s.r, big.NewInt(m)), s.s, false)
			test("other key", ref.AddPt(s.pub, ref.MulPt(ref.GPt, big.NewInt(m))), s.r, s.s, false)
			test("other R", s.pub, ref.AddPt(s.r, ref.MulPt(ref.GPt, big.NewInt(m))), s.s, false)
		}
		// forgeries that arithmetic with the point at infinity would let through:
		// key (0,0) with S=k, R (0,0) with S=e*x
		test("forged for the zero key", inf, ref.MulPt(ref.GPt, big.NewInt(1007)), big.NewInt(1007), false)
		e := ref.Challenge(new(big.Int), s.pub, s.msg)
		test("forged with zero R", s.pub, inf, new(big.Int).Mod(new(big.Int).Mul(e, s.priv), ref.N), false)
		test("zero R and S", s.pub, inf, new(big.Int), false)
		test("all zero", inf, inf, new(big.Int), false)
		for x := int64(0); x < 12; x++ { // coordinates without a point
			sig := s.sig
			xb := ref.B32(big.NewInt(x))
			copy(sig[:32], xb[:])
			w := fmt.Sprintf("R.x = %d", x)
			tasks = append(tasks, func() { bytesVerify("small R.x", s.pub, s.msg, sig, in(w)) })
			xb = ref.B32(new(big.Int).Add(ref.P, big.NewInt(x-3)))
			sig2 := s.sig
			copy(sig2[:32], xb[:])
			tasks = append(tasks, func() { bytesVerify("R.x at the field size", s.pub, s.msg, sig2, in(w)) })
		}
		for _, t := range bases { // crosswise
			t := t
			tasks = append(tasks, func() { bytesVerify("crosswise", t.pub, s.msg, s.sig, in("key of another")) })
			tasks = append(tasks, func() { bytesVerify("crosswise", s.pub, t.msg, s.sig, in("message of another")) })
			tasks = append(tasks, func() {
				sig := s.sig
				copy(sig[32:], t.sig[32:])
				bytesVerify("crosswise", s.pub, s.msg, sig, in("S of another"))
			})
			tasks = append(tasks, func() {
				sig := s.sig
				copy(sig[:32], t.sig[:32])
				bytesVerify("crosswise", s.pub, s.msg, sig, in("R of another"))
			})
		}
	}
	c.Par(len(tasks), func(i int) { tasks[i]() })
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
