package ref

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"time"

	"golang.org/x/crypto/blake2b"
)

// Header is a block header as the wire format defines it.
type Header struct {
	Version                                                     uint16
	Height                                                      uint64
	TS                                                          int64
	Previous, PreviousRoot, UTXORoot, RangeProofRoot, KernelRoot [32]byte
	Offset                                                      [32]byte
	OutputMmr, KernelMmr, TD                                    uint64
	Scaling                                                     uint32
	Nonce                                                       uint64
	EdgeBits                                                    uint8
	Nonces                                                      []uint32
}

// Pre is the part the proof of work commits to.
func (h *Header) Pre() []byte {
	var b bytes.Buffer
	w := func(v interface{}) { binary.Write(&b, binary.BigEndian, v) }
	w(h.Version)
	w(h.Height)
	w(h.TS)
	w(h.Previous)
	w(h.PreviousRoot)
	w(h.UTXORoot)
	w(h.RangeProofRoot)
	w(h.KernelRoot)
	w(h.Offset)
	w(h.OutputMmr)
	w(h.KernelMmr)
	w(h.TD)
	w(h.Scaling)
	w(h.Nonce)
	return b.Bytes()
}

// PackNonces packs 42 nonces of n bits each, little-endian.
func PackNonces(bits uint, nonces []uint32) []byte {
	v := new(big.Int)
	for i, n := range nonces {
		x := new(big.Int).SetUint64(uint64(n))
		v.Or(v, x.Lsh(x, uint(i)*bits))
	}
	be := v.Bytes()
	out := make([]byte, (bits*42+7)/8)
	for i := range be {
		out[i] = be[len(be)-1-i]
	}
	return out
}

// UnpackNonces is the inverse of PackNonces; padding bits are ignored.
func UnpackNonces(bits uint, b []byte) []uint32 {
	be := make([]byte, len(b))
	for i := range b {
		be[len(b)-1-i] = b[i]
	}
	v := new(big.Int).SetBytes(be)
	mask := new(big.Int).SetUint64(1<<bits - 1)
	out := make([]uint32, 42)
	for i := range out {
		x := new(big.Int).Rsh(v, uint(i)*bits)
		out[i] = uint32(x.And(x, mask).Uint64())
	}
	return out
}

// PowBytes is the proof as it is written to the wire.
func (h *Header) PowBytes() []byte {
	return append([]byte{h.EdgeBits}, PackNonces(uint(h.EdgeBits), h.Nonces)...)
}

// Bytes is the header on the wire.
func (h *Header) Bytes() []byte { return append(h.Pre(), h.PowBytes()...) }

// PreSize is the length of Pre.
const PreSize = 2 + 8 + 8 + 6*32 + 8 + 8 + 8 + 4 + 8

// ParseHeader reads a header and returns the rest.
func ParseHeader(b []byte) (h *Header, rest []byte, ok bool) {
	h = new(Header)
	r := bytes.NewReader(b)
	rd := func(v interface{}) bool { return binary.Read(r, binary.BigEndian, v) == nil }
	if !(rd(&h.Version) && rd(&h.Height) && rd(&h.TS) && rd(&h.Previous) && rd(&h.PreviousRoot) && rd(&h.UTXORoot) &&
		rd(&h.RangeProofRoot) && rd(&h.KernelRoot) && rd(&h.Offset) && rd(&h.OutputMmr) && rd(&h.KernelMmr) && rd(&h.TD) &&
		rd(&h.Scaling) && rd(&h.Nonce) && rd(&h.EdgeBits)) {
		return nil, nil, false
	}
	if h.EdgeBits == 0 || h.EdgeBits > 32 || h.TS < MinTS || h.TS > MaxTS {
		return nil, nil, false
	}
	pow := make([]byte, (uint(h.EdgeBits)*42+7)/8)
	if !rd(pow) {
		return nil, nil, false
	}
	h.Nonces = UnpackNonces(uint(h.EdgeBits), pow)
	return h, b[len(b)-r.Len():], true
}

// The years -262144 to 262143.
const (
	MinTS int64 = -8334632851200
	MaxTS int64 = 8210298412799
)

// Hash is the hash of the header.
func (h *Header) Hash() [32]byte { return blake2b.Sum256(h.PowBytes()[1:]) }

// Diff is the difficulty of the proof.
func (h *Header) Diff() uint64 {
	s := blake2b.Sum256(h.PowBytes())
	return DiffOf(s[:])
}

// DiffOf is the difficulty of a hash.
func DiffOf(hash []byte) uint64 {
	n := binary.BigEndian.Uint64(hash)
	if n == 0 {
		n = 1
	}
	return 0x0fffffffffffffff / n
}

// VersionAt is the block version scheduled for a height, 0 for none.
func VersionAt(height uint64) uint16 {
	switch {
	case height < 95000:
		return 1
	case height < 250000:
		return 2
	case height < 500000:
		return 3
	}
	return 0
}

// CycleValid tells whether the proof is a 42-cycle of the header's graph.
func (h *Header) CycleValid() bool {
	if len(h.Nonces) != 42 {
		return false
	}
	key := Key(h.Pre())
	mask := uint64(1)<<h.EdgeBits - 1
	us, vs := make([]uint64, 42), make([]uint64, 42)
	for i, n := range h.Nonces {
		if uint64(n) > mask || i > 0 && n <= h.Nonces[i-1] {
			return false
		}
		e := SiphashBlock(key, uint64(n))
		us[i], vs[i] = e&mask, e>>32&mask
	}
	return SimpleCycle(us, vs)
}

// Valid is the header rule.
func (h *Header) Valid(now time.Time) bool {
	v := VersionAt(h.Height)
	if v == 0 || v != h.Version {
		return false
	}
	// ts - now > 720 s, without overflow
	d := new(big.Int).Sub(nanos(h.TS, 0), nanos(now.Unix(), now.Nanosecond()))
	if d.Cmp(big.NewInt(720e9)) > 0 {
		return false
	}
	if h.EdgeBits != 29 && (h.EdgeBits < 30 || h.Scaling != 1) {
		return false
	}
	return h.CycleValid()
}

func nanos(s int64, n int) *big.Int {
	x := big.NewInt(s)
	x.Mul(x, big.NewInt(1e9))
	return x.Add(x, big.NewInt(int64(n)))
}
