// Package memstore is a storage in memory that keeps the storage contract.
package memstore

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"verif/conv"
	"verif/fix"
	"verif/ref"

	"github.com/dblokhin/gringo/consensus"
)

// Store holds one chain, ascending by height, and any number of other blocks.
type Store struct {
	Main   []*consensus.Block
	Others []*consensus.Block
	Last   *consensus.Block
	Writes []string
	Calls  []string
	MaxAsk int
	index  map[string]int
}

// AddBlock records the call.
func (s *Store) AddBlock(b *consensus.Block) { s.Writes = append(s.Writes, "add") }

// DelBlock records the call.
func (s *Store) DelBlock(id consensus.BlockID) { s.Writes = append(s.Writes, "del") }

// Freeze makes lookups by hash fast; Main must not change any more.
func (s *Store) Freeze() {
	s.index = map[string]int{}
	for i := len(s.Main) - 1; i >= 0; i-- {
		s.index[string(s.Main[i].Hash())] = i
	}
}

func (s *Store) find(id consensus.BlockID) int {
	if s.index != nil && id.Hash != nil {
		i, ok := s.index[string(id.Hash)]
		if !ok || id.Height != nil && s.Main[i].Header.Height != *id.Height {
			return -1
		}
		return i
	}
	for i, b := range s.Main {
		if match(b, id) {
			return i
		}
	}
	return -1
}

func match(b *consensus.Block, id consensus.BlockID) bool {
	if id.Hash == nil && id.Height == nil {
		return false
	}
	return (id.Hash == nil || bytes.Equal(b.Hash(), id.Hash)) && (id.Height == nil || b.Header.Height == *id.Height)
}

// GetBlock returns the block with the hash, the height, or both; by height
// alone only of the main chain.
func (s *Store) GetBlock(id consensus.BlockID) *consensus.Block {
	if i := s.find(id); i >= 0 {
		return s.Main[i]
	}
	if id.Hash != nil {
		for _, b := range s.Others {
			if match(b, id) {
				return b
			}
		}
	}
	return nil
}

// GetLastBlock returns the head.
func (s *Store) GetLastBlock() *consensus.Block { return s.Last }

// From returns up to limit blocks of the main chain, ascending, beginning with
// the given one.
func (s *Store) From(id consensus.BlockID, limit int) (l consensus.BlockList) {
	if limit > s.MaxAsk {
		s.MaxAsk = limit
	}
	i := s.find(id)
	for ; i >= 0 && i < len(s.Main) && len(l) < limit; i++ {
		l = append(l, *s.Main[i])
	}
	return
}

// Digest is the content, to notice changes.
func (s *Store) Digest() string {
	var w bytes.Buffer
	for _, l := range [][]*consensus.Block{s.Main, s.Others} {
		for _, b := range l {
			fmt.Fprintf(&w, "%d %d %d %d %x %x;", b.Header.Height, b.Header.Timestamp.Unix(), b.Header.TotalDifficulty, b.Header.Difficulty, []byte(b.Header.Previous), []byte(b.Hash()))
		}
	}
	return w.String()
}

// Body is a valid body for any height: one coinbase output and kernel.
func Body() (ref.Output, ref.Kernel) {
	bodyOnce.Do(func() { bodyO, bodyK = body() })
	return bodyO, bodyK
}

var (
	bodyOnce sync.Once
	bodyO    ref.Output
	bodyK    ref.Kernel
)

func body() (o ref.Output, k ref.Kernel) {
	rec := ref.ParseBlock(fix.Block65927())
	for _, x := range rec.Outputs {
		if x.Features == 1 {
			o = x
		}
	}
	priv := big.NewInt(0x1234567)
	k = ref.Kernel{Features: 1}
	copy(k.Excess[:], ref.Commitment(ref.MulPt(ref.GPt, priv)))
	k.Sig = ref.Sign(priv, ref.Message(0, 0), big.NewInt(1007))
	return
}

// Block is a block with the header and a valid body.
func Block(h *ref.Header) *consensus.Block {
	o, k := Body()
	b := &consensus.Block{Header: conv.Header(h)}
	b.Outputs = consensus.OutputList{conv.Output(o)}
	b.Kernels = consensus.TxKernelList{conv.Kernel(k)}
	return b
}

// Nonces are 42 distinct ascending numbers for a synthetic block.
func Nonces(tag uint32) []uint32 {
	n := make([]uint32, 42)
	for i := range n {
		n[i] = tag*64 + uint32(i)
	}
	return n
}
