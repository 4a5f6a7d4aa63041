// Package conv converts between the reference types and those of the code
// under test, member by member.
package conv

import (
	"bytes"
	"fmt"
	"time"

	"verif/ref"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
)

func cp(b []byte) []byte { return append([]byte(nil), b...) }

// Header builds a header.
func Header(h *ref.Header) consensus.BlockHeader {
	return consensus.BlockHeader{
		Version: h.Version, Height: h.Height, Previous: cp(h.Previous[:]), PreviousRoot: cp(h.PreviousRoot[:]),
		Timestamp: time.Unix(h.TS, 0).UTC(), UTXORoot: cp(h.UTXORoot[:]), RangeProofRoot: cp(h.RangeProofRoot[:]),
		KernelRoot: cp(h.KernelRoot[:]), Nonce: h.Nonce, TotalKernelOffset: cp(h.Offset[:]),
		OutputMmrSize: h.OutputMmr, KernelMmrSize: h.KernelMmr,
		POW:             consensus.Proof{EdgeBits: h.EdgeBits, Nonces: append([]uint32(nil), h.Nonces...)},
		TotalDifficulty: consensus.Difficulty(h.TD), ScalingDifficulty: h.Scaling,
	}
}

func same(name string, a, b interface{}) error {
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return fmt.Errorf("%s is %v, want %v", name, a, b)
	}
	return nil
}

func bs(name string, got, want []byte) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s is %x, want %x", name, got, want)
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// EqHeader compares a header with the reference.
func EqHeader(h *consensus.BlockHeader, r *ref.Header) error {
	return first(same("version", h.Version, r.Version), same("height", h.Height, r.Height), same("timestamp", h.Timestamp.Unix(), r.TS), same("timestamp fraction", h.Timestamp.Nanosecond(), 0),
		bs("previous", h.Previous, r.Previous[:]), bs("previous root", h.PreviousRoot, r.PreviousRoot[:]), bs("utxo root", h.UTXORoot, r.UTXORoot[:]),
		bs("range proof root", h.RangeProofRoot, r.RangeProofRoot[:]), bs("kernel root", h.KernelRoot, r.KernelRoot[:]), bs("offset", h.TotalKernelOffset, r.Offset[:]),
		same("output mmr", h.OutputMmrSize, r.OutputMmr), same("kernel mmr", h.KernelMmrSize, r.KernelMmr), same("total difficulty", uint64(h.TotalDifficulty), r.TD),
		same("scaling", h.ScalingDifficulty, r.Scaling), same("nonce", h.Nonce, r.Nonce), same("edge bits", h.POW.EdgeBits, r.EdgeBits), same("nonces", h.POW.Nonces, r.Nonces))
}

// Input builds an input.
func Input(i ref.Input) consensus.Input {
	return consensus.Input{Features: consensus.OutputFeatures(i.Features), Commit: secp256k1zkp.Commitment(cp(i.Commit[:]))}
}

// EqInput compares.
func EqInput(i *consensus.Input, r ref.Input) error {
	return first(same("input features", uint8(i.Features), r.Features), bs("input commitment", i.Commit, r.Commit[:]))
}

func point(b []byte) *bulletproofs.Point {
	p, ok := ref.ReadPoint(b)
	if !ok {
		panic("bad point in fixture")
	}
	return &bulletproofs.Point{X: p.X, Y: p.Y}
}

// Output builds an output.
func Output(o ref.Output) consensus.Output {
	var pr bulletproofs.BulletProof
	if err := pr.Read(bytes.NewReader(o.Proof)); err != nil {
		panic(err)
	}
	return consensus.Output{Features: consensus.OutputFeatures(o.Features), Commit: point(o.Commit[:]), RangeProof: pr}
}

// EqOutput compares.
func EqOutput(o *consensus.Output, r ref.Output) error {
	if o.Commit == nil {
		return fmt.Errorf("no commitment")
	}
	return first(same("output features", uint8(o.Features), r.Features), bs("output commitment", ref.Commitment(ref.Pt{X: o.Commit.X, Y: o.Commit.Y}), r.Commit[:]), bs("range proof", o.RangeProof.Bytes(), r.Proof))
}

// Kernel builds a kernel.
func Kernel(k ref.Kernel) consensus.TxKernel {
	return consensus.TxKernel{Features: consensus.KernelFeatures(k.Features), Fee: k.Fee, LockHeight: k.Lock, Excess: *point(k.Excess[:]), ExcessSig: k.Sig}
}

// EqKernel compares.
func EqKernel(k *consensus.TxKernel, r ref.Kernel) error {
	return first(same("kernel features", uint8(k.Features), r.Features), same("fee", k.Fee, r.Fee), same("lock height", k.LockHeight, r.Lock),
		bs("excess", ref.Commitment(ref.Pt{X: k.Excess.X, Y: k.Excess.Y}), r.Excess[:]), bs("excess signature", k.ExcessSig[:], r.Sig[:]))
}

// EqLists compares the three lists.
func EqLists(in consensus.InputList, out consensus.OutputList, ker consensus.TxKernelList, rin []ref.Input, rout []ref.Output, rker []ref.Kernel) error {
	if len(in) != len(rin) || len(out) != len(rout) || len(ker) != len(rker) {
		return fmt.Errorf("%d inputs, %d outputs, %d kernels, want %d, %d, %d", len(in), len(out), len(ker), len(rin), len(rout), len(rker))
	}
	for i := range in {
		if err := EqInput(&in[i], rin[i]); err != nil {
			return fmt.Errorf("input %d: %v", i, err)
		}
	}
	for i := range out {
		if err := EqOutput(&out[i], rout[i]); err != nil {
			return fmt.Errorf("output %d: %v", i, err)
		}
	}
	for i := range ker {
		if err := EqKernel(&ker[i], rker[i]); err != nil {
			return fmt.Errorf("kernel %d: %v", i, err)
		}
	}
	return nil
}

// Lists builds the three lists.
func Lists(rin []ref.Input, rout []ref.Output, rker []ref.Kernel) (in consensus.InputList, out consensus.OutputList, ker consensus.TxKernelList) {
	for _, i := range rin {
		in = append(in, Input(i))
	}
	for _, o := range rout {
		out = append(out, Output(o))
	}
	for _, k := range rker {
		ker = append(ker, Kernel(k))
	}
	return
}
