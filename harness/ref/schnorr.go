package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
)

// secp256k1, affine arithmetic with math/big only.

// Curve constants.
var (
	P  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	Gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	Gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	Hx = hexInt("50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0")
	Hy = hexInt("31d3c6863973926e049e637cb1b5f40a36dac28af1766968c30c2313f3a38904")
)

func hexInt(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return x
}

// Pt is a curve point; X is nil for the point at infinity.
type Pt struct{ X, Y *big.Int }

// The generators.
var (
	GPt = Pt{Gx, Gy}
	HPt = Pt{Hx, Hy}
)

// OnCurve tells whether y² = x³ + 7 with both in the field.
func (p Pt) OnCurve() bool {
	if p.X == nil || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Mul(p.X, p.X)
	r.Mul(r, p.X).Add(r, big.NewInt(7))
	return l.Sub(l, r).Mod(l, P).Sign() == 0
}

// Equal compares two points.
func (p Pt) Equal(q Pt) bool {
	if p.X == nil || q.X == nil {
		return p.X == nil && q.X == nil
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// AddPt adds two points.
func AddPt(p, q Pt) Pt {
	if p.X == nil {
		return q
	}
	if q.X == nil {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, P).Sign() == 0 {
			return Pt{}
		}
		l = new(big.Int).Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(p.Y, 1)
		l.Mul(l, d.ModInverse(d, P)).Mod(l, P)
	} else {
		l = new(big.Int).Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		d.Mod(d, P)
		l.Mul(l, d.ModInverse(d, P)).Mod(l, P)
	}
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X).Sub(x, q.X).Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l).Sub(y, p.Y).Mod(y, P)
	return Pt{x, y}
}

// NegPt is -p.
func NegPt(p Pt) Pt {
	if p.X == nil {
		return p
	}
	y := new(big.Int).Sub(P, p.Y)
	return Pt{p.X, y.Mod(y, P)}
}

// MulPt multiplies a point by a scalar.
func MulPt(p Pt, k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	r := Pt{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = AddPt(r, r)
		if k.Bit(i) == 1 {
			r = AddPt(r, p)
		}
	}
	return r
}

// Residue tells whether y is a square in the field.
func Residue(y *big.Int) bool { return big.Jacobi(y, P) >= 0 }

// Lift is the point with coordinate x whose y is a square, if there is one.
func Lift(x *big.Int) (Pt, bool) {
	if x.Cmp(P) >= 0 {
		return Pt{}, false
	}
	c := new(big.Int).Mul(x, x)
	c.Mul(c, x).Add(c, big.NewInt(7)).Mod(c, P)
	y := new(big.Int).ModSqrt(c, P)
	if y == nil {
		return Pt{}, false
	}
	if !Residue(y) {
		y.Sub(P, y)
	}
	return Pt{new(big.Int).Set(x), y}, true
}

// B32 is x in 32 big-endian bytes.
func B32(x *big.Int) (b [32]byte) { x.FillBytes(b[:]); return }

// Compress is the 33-byte public key (tag by parity).
func Compress(p Pt) []byte {
	x := B32(p.X)
	return append([]byte{2 + byte(p.Y.Bit(0))}, x[:]...)
}

// Commitment is the 33-byte commitment (8 or 9 by residue).
func Commitment(p Pt) []byte {
	x := B32(p.X)
	t := byte(9)
	if Residue(p.Y) {
		t = 8
	}
	return append([]byte{t}, x[:]...)
}

// Message is the message a kernel signs.
func Message(fee, lock uint64) (m [32]byte) {
	binary.BigEndian.PutUint64(m[16:], fee)
	binary.BigEndian.PutUint64(m[24:], lock)
	return
}

// Challenge is the hash that binds R, key and message.
func Challenge(rx *big.Int, p Pt, msg [32]byte) *big.Int { return challenge(rx, p, msg) }

func challenge(rx *big.Int, p Pt, msg [32]byte) *big.Int {
	h := sha256.New()
	x := B32(rx)
	h.Write(x[:])
	h.Write(Compress(p))
	h.Write(msg[:])
	return new(big.Int).SetBytes(h.Sum(nil))
}

// Sign signs with the given nonce.
func Sign(priv *big.Int, msg [32]byte, k *big.Int) (sig [64]byte) {
	pub := MulPt(GPt, priv)
	r := MulPt(GPt, k)
	if !Residue(r.Y) {
		k = new(big.Int).Sub(N, k)
		r = MulPt(GPt, k)
	}
	s := challenge(r.X, pub, msg)
	s.Mul(s, priv).Add(s, k).Mod(s, N)
	x, y := B32(r.X), B32(s)
	copy(sig[:32], x[:])
	copy(sig[32:], y[:])
	return
}

// VerifyPoints is s*G == R + e*P.
func VerifyPoints(pub Pt, msg [32]byte, r Pt, s *big.Int) bool {
	if !pub.OnCurve() || !r.OnCurve() {
		return false
	}
	e := challenge(r.X, pub, msg)
	return MulPt(GPt, s).Equal(AddPt(r, MulPt(pub, e)))
}

// Verify verifies a serialised signature.
func Verify(pub Pt, msg [32]byte, sig [64]byte) bool {
	r, ok := Lift(new(big.Int).SetBytes(sig[:32]))
	if !ok {
		return false
	}
	return VerifyPoints(pub, msg, r, new(big.Int).SetBytes(sig[32:]))
}
