package ref

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"golang.org/x/crypto/blake2b"
)

func be64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

// Input of a block.
type Input struct {
	Features byte
	Commit   [33]byte
}

// Bytes is the input on the wire.
func (i Input) Bytes() []byte { return append([]byte{i.Features}, i.Commit[:]...) }

// Output of a block.
type Output struct {
	Features byte
	Commit   [33]byte
	Proof    []byte
}

// Head is the output without its proof.
func (o Output) Head() []byte { return append([]byte{o.Features}, o.Commit[:]...) }

// Bytes is the output on the wire.
func (o Output) Bytes() []byte {
	return append(append(o.Head(), be64(uint64(len(o.Proof)))...), o.Proof...)
}

// Kernel of a block.
type Kernel struct {
	Features  byte
	Fee, Lock uint64
	Excess    [33]byte
	Sig       [64]byte
}

// Bytes is the kernel on the wire.
func (k Kernel) Bytes() []byte {
	b := append([]byte{k.Features}, be64(k.Fee)...)
	b = append(b, be64(k.Lock)...)
	return append(append(b, k.Excess[:]...), k.Sig[:]...)
}

// ReadPoint decodes a commitment.
func ReadPoint(b []byte) (Pt, bool) {
	if b[0]&0xfe != 8 {
		return Pt{}, false
	}
	p, ok := Lift(new(big.Int).SetBytes(b[1:33]))
	if !ok {
		return Pt{}, false
	}
	if b[0] == 9 {
		p = NegPt(p)
	}
	return p, true
}

// SigValid tells whether the kernel's signature is valid.
func (k Kernel) SigValid() bool {
	p, ok := ReadPoint(k.Excess[:])
	return ok && Verify(p, Message(k.Fee, k.Lock), k.Sig)
}

// Block is a full block.
type Block struct {
	Head    *Header
	Inputs  []Input
	Outputs []Output
	Kernels []Kernel
}

// Bytes is the block on the wire, lists in the order they have.
func (b *Block) Bytes() []byte {
	var w bytes.Buffer
	w.Write(b.Head.Bytes())
	w.Write(be64(uint64(len(b.Inputs))))
	w.Write(be64(uint64(len(b.Outputs))))
	w.Write(be64(uint64(len(b.Kernels))))
	w.Write(b.Body())
	return w.Bytes()
}

// Body is the elements of a block on the wire.
func (b *Block) Body() []byte {
	var w bytes.Buffer
	for _, i := range b.Inputs {
		w.Write(i.Bytes())
	}
	for _, o := range b.Outputs {
		w.Write(o.Bytes())
	}
	for _, k := range b.Kernels {
		w.Write(k.Bytes())
	}
	return w.Bytes()
}

// ParseBlock reads a block that is well-formed.
func ParseBlock(raw []byte) *Block {
	h, rest, ok := ParseHeader(raw)
	if !ok {
		return nil
	}
	b := &Block{Head: h}
	ni, no, nk := binary.BigEndian.Uint64(rest), binary.BigEndian.Uint64(rest[8:]), binary.BigEndian.Uint64(rest[16:])
	r := bytes.NewReader(rest[24:])
	rd := func(v interface{}) {
		if err := binary.Read(r, binary.BigEndian, v); err != nil {
			panic(err)
		}
	}
	for ; ni > 0; ni-- {
		var i Input
		rd(&i)
		b.Inputs = append(b.Inputs, i)
	}
	for ; no > 0; no-- {
		var o Output
		var n uint64
		rd(&o.Features)
		rd(&o.Commit)
		rd(&n)
		o.Proof = make([]byte, n)
		rd(o.Proof)
		b.Outputs = append(b.Outputs, o)
	}
	for ; nk > 0; nk-- {
		var k Kernel
		rd(&k)
		b.Kernels = append(b.Kernels, k)
	}
	if r.Len() != 0 {
		return nil
	}
	return b
}

func sum(b []byte) []byte { s := blake2b.Sum256(b); return s[:] }

// Hashes that order the lists.
func (i Input) Hash() []byte  { return sum(i.Bytes()) }
func (o Output) Hash() []byte { return sum(o.Head()) }
func (k Kernel) Hash() []byte { return sum(k.Bytes()) }

// Sorted tells whether hashes are in order.
func Sorted(h [][]byte) bool {
	for i := 1; i < len(h); i++ {
		if bytes.Compare(h[i-1], h[i]) > 0 {
			return false
		}
	}
	return true
}

// BodyValid is the block rule for a body; proofOK judges range proofs.
func (b *Block) BodyValid(proofOK func(o Output) bool) bool {
	var hi, ho, hk [][]byte
	co, ck := 0, 0
	ok := true
	for _, i := range b.Inputs {
		hi = append(hi, i.Hash())
	}
	for _, o := range b.Outputs {
		ho = append(ho, o.Hash())
		co += int(o.Features & 1)
		ok = ok && proofOK(o)
	}
	for _, k := range b.Kernels {
		hk = append(hk, k.Hash())
		ck += int(k.Features & 1)
		ok = ok && k.Lock <= b.Head.Height && k.SigValid()
	}
	return ok && co == 1 && ck == 1 && Sorted(hi) && Sorted(ho) && Sorted(hk)
}
