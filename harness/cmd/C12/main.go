// C12: chain validation accepts exactly fully valid chains.
package main

import (
	"bytes"
	"fmt"

	"verif/conv"
	"verif/fix"
	"verif/hv"
	"verif/memstore"
	"verif/ref"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/cuckoo"
)

var c *hv.Ctx

func main() {
	hv.Main("C12", "model_checking", "states: stored chains of every length up to the bound in which every block is valid, missing, or invalid in one of several ways (every combination on short chains, every single and pair of blocks on longer ones), with mined blocks and with blocks whose proofs a hook of the hash function makes valid; transitions: opening and validating the chain (twice), each compared with the model's walk. Non-trivial: the chain has a block above the genesis.", run)
}

// state of one block in the store
const (
	ok = iota
	missing
	badVersion
	badKernel
	noCoinbase
	badProof
	stale // the block's previous hash points elsewhere
	root  // the block's previous hash is that of the genesis itself
	zero  // or nothing but zeroes
	kinds
)

var names = []string{"valid", "missing", "version", "kernel signature", "no coinbase", "commitment", "previous", "previous like the genesis", "previous zero"}

type world struct {
	name string
	gen  *consensus.Block
	h    []*ref.Header // heights 1..
	real bool          // proofs are mined: any change of a header invalidates it
}

func (w *world) block(i, kind int) *consensus.Block {
	b := memstore.Block(w.h[i])
	switch kind {
	case badVersion:
		b.Header.Version = 7
	case badKernel:
		b.Kernels[0].ExcessSig[50] ^= 4
	case noCoinbase:
		b.Outputs = nil
	case badProof:
		b.Outputs[0].Commit = &b.Kernels[0].Excess
	case stale:
		b.Header.Previous = bytes.Repeat([]byte{0x77}, 32)
	case root:
		b.Header.Previous = append(consensus.Hash(nil), w.gen.Header.Previous...)
	case zero:
		b.Header.Previous = make(consensus.Hash, 32)
	}
	return b
}

type layout struct {
	n         int   // length of the chain
	kinds     []int // of the blocks 1..n
	where     int   // 0: main chain, 1: only known by hash
	genStored bool
	junk      bool // other blocks are stored too
}

func (w *world) play(l layout) bool {
	st := &memstore.Store{}
	if l.genStored {
		st.Main = append(st.Main, w.gen)
	}
	for i, k := range l.kinds {
		if k == missing {
			continue
		}
		b := w.block(i, k)
		if l.where == 1 && i < l.n-1 {
			st.Others = append(st.Others, b)
		} else {
			st.Main = append(st.Main, b)
		}
		if i == l.n-1 {
			st.Last = b
		}
	}
	// the head is what GetLastBlock says: the highest block present
	top := -1
	if st.Last == nil {
		for i := l.n - 1; i >= 0; i-- {
			if l.kinds[i] != missing {
				st.Last, top = w.block(i, l.kinds[i]), i
				break
			}
		}
	} else {
		top = l.n - 1
	}
	if st.Last == nil && l.genStored {
		st.Last = w.gen
	}
	if l.junk {
		for i := l.n; i < len(w.h) && i < l.n+2; i++ {
			st.Main = append(st.Main, w.block(i, badKernel))
		}
		st.Others = append(st.Others, &consensus.Block{Header: conv.Header(&ref.Header{Version: 9, Height: 1, EdgeBits: 29, Nonces: memstore.Nonces(5)})})
	}
	// the model walks down
	want, wantBy := true, ""
	for i := top; i >= 0; i-- {
		if l.kinds[i] >= stale && !w.real {
			// a valid block whose predecessor is not the one below
			want, wantBy = false, fmt.Sprintf("block %d has no stored predecessor", i+1)
			break
		}
		if l.kinds[i] != ok {
			want, wantBy = false, fmt.Sprintf("block %d is %s", i+1, names[l.kinds[i]])
			break
		}
	}
	head, height, td := w.gen, w.gen.Header.Height, w.gen.Header.TotalDifficulty
	if st.Last != nil {
		head, height, td = st.Last, st.Last.Header.Height, st.Last.Header.TotalDifficulty
	}
	key := fmt.Sprintf("%s %+v", w.name, l)
	bad := func(k, what string) bool {
		c.Violate(k, fmt.Sprintf("%s chain of %d blocks, states %v: %s", w.name, l.n, l.kinds, what), map[string]interface{}{"world": w.name, "blocks": fmt.Sprint(l.kinds), "kinds": names, "layout": fmt.Sprintf("%+v", l), "model": wantBy})
		return false
	}
	digest := st.Digest()
	var ch *chain.Chain
	c.States(1)
	for round := 0; round < 2; round++ {
		var err error
		p := c.Do(func() string { return key }, func() {
			if round == 0 {
				ch = chain.New(w.gen, st)
			}
			err = ch.Validate()
		})
		c.Transitions(1)
		c.Traces(1)
		c.Case(hv.Hash64([]byte(key)), l.n > 0)
		if p != nil {
			return bad("panic", fmt.Sprint("panic ", p))
		}
		if (err == nil) != want {
			return bad(fmt.Sprintf("accepted=%v", err == nil), fmt.Sprintf("Validate returned %v; model: %q", err, wantBy))
		}
		h, g := ch.Head(), ch.Genesis()
		if !bytes.Equal(h.Header.Bytes(), head.Header.Bytes()) || ch.Height() != height || ch.TotalDifficulty() != td || !bytes.Equal(g.Header.Bytes(), w.gen.Header.Bytes()) {
			return bad("start", fmt.Sprintf("opened at height %d, total %d, want %d, %d", ch.Height(), ch.TotalDifficulty(), height, td))
		}
		if st.Digest() != digest || len(st.Writes) > 0 {
			return bad("writes", "the store was changed")
		}
	}
	c.Outcome(fmt.Sprintf("valid=%v", want))
	c.Sample(fmt.Sprint(w.name, want, l.n), func() interface{} {
		return map[string]interface{}{"world": w.name, "layout": fmt.Sprintf("%+v", l), "valid": want}
	})
	return true
}

// cyc is edge i of a 42-cycle.
func cyc(i uint64) (u, v uint64) { return 7 + (i+1)/2%21, 1000 + i/2 }

func run(ctx *hv.Ctx) {
	c = ctx
	// nonces 64t+i, i below 42, are a cycle for every key
	cuckoo.VerifHook = func(block bool, key [4]uint64, nonce uint64) (uint64, bool) {
		if !block || nonce%64 >= 42 || nonce < 6400 || nonce >= 6400+64*4000 {
			return 0, false
		}
		u, v := cyc(nonce % 64)
		return u | v<<32, true
	}
	c.Assume("the hook gives valid proofs to some nonces; it does not touch the verifier or the validation")
	_, by := fix.Headers()
	mined := &world{name: "mined", gen: &chain.Testnet4, real: true}
	for i := 1; by[fmt.Sprintf("b%d", i)] != nil; i++ {
		mined.h = append(mined.h, by[fmt.Sprintf("b%d", i)].H)
	}
	long := func(name string, genHeight uint64, n int) *world {
		w := &world{name: name}
		g := chain.Testnet4
		g.Header.Height = genHeight
		w.gen = &g
		prev := g.Hash()
		for i := 1; i <= n; i++ {
			h := *by["b1"].H
			h.Height = genHeight + uint64(i)
			h.TS += 60 * int64(i)
			h.TD += uint64(13 * i)
			copy(h.Previous[:], prev)
			h.Nonces = memstore.Nonces(uint32(100 + i))
			hash := h.Hash()
			prev = hash[:]
			w.h = append(w.h, &h)
		}
		return w
	}
	worlds := []*world{mined, long("hooked", 0, 150), long("hooked above height 100", 100, 12)}
	var jobs []func() bool
	for _, w := range worlds {
		w := w
		full := 4
		if !w.real && c.Thorough {
			full = 6
		}
		for n := 0; n <= full && n <= len(w.h); n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= kinds
			}
			for x := 0; x < total; x++ {
				ks := make([]int, n)
				odd := 0
				for i, y := 0, x; i < n; i++ {
					ks[i] = y % kinds
					y /= kinds
					if ks[i] > stale {
						odd++
					}
				}
				if odd > 1 && n > 2 && !c.Thorough {
					continue
				}
				for m := 0; m < 8; m++ {
					if n == 4 && !c.Thorough && m != 0 && m != 3 && m != 6 {
						continue
					}
					l := layout{n, ks, m & 1, m&2 != 0, m&4 != 0}
					jobs = append(jobs, func() bool { return w.play(l) })
				}
			}
		}
		if w.real {
			continue
		}
		// one or two faults anywhere in longer chains
		for _, n := range []int{5, 6, 7, 8, 9, 10, 11, 12, 31, 32, 33, 60, 61, 71, 72, 100, 101, 128, 150} {
			if n > len(w.h) {
				continue
			}
			for i := -1; i < n; i++ {
				for k := 1; k < kinds; k++ {
					if i < 0 && k > 1 {
						break
					}
					if n > 33 && !c.Thorough && i > 1 && i < n-2 && (i%16 != 0 || k > 3) {
						continue
					}
					if n > 12 && n < 33 && !c.Thorough && k > 3 {
						continue
					}
					for j := i; j < n; j++ {
						if j > i && (n > 33 || n > 12 && !c.Thorough) {
							break
						}
						if i < 0 && j > i {
							break
						}
						ks := make([]int, n)
						if i >= 0 {
							ks[i] = k
							if j > i {
								ks[j] = missing
							}
						}
						l := layout{n, ks, 0, i%2 == 0, k%2 == 0}
						jobs = append(jobs, func() bool { return w.play(l) })
					}
				}
			}
		}
	}
	c.Par(len(jobs), func(i int) { jobs[i]() })

	// a store whose chain leads to another genesis is not valid
	for _, g := range []*consensus.Block{&chain.Testnet1, &chain.Testnet2, &chain.Testnet3, &chain.Mainnet} {
		for _, stored := range []bool{false, true} {
			st := &memstore.Store{}
			if stored {
				st.Main = append(st.Main, &chain.Testnet4)
			}
			for i := range mined.h {
				st.Main = append(st.Main, mined.block(i, ok))
			}
			st.Last = st.Main[len(st.Main)-1]
			var err error
			p := c.Do(func() string { return "other genesis" }, func() { err = chain.New(g, st).Validate() })
			c.States(1)
			c.Transitions(1)
			c.Traces(1)
			if p != nil || err == nil {
				c.Violate("other genesis", fmt.Sprintf("a chain of another genesis was accepted (panic %v)", p), stored)
			}
			c.Outcome("other genesis rejected")
		}
		// its genesis alone is fine
		var err error
		p := c.Do(func() string { return "genesis only" }, func() { err = chain.New(g, &memstore.Store{}).Validate() })
		if p != nil || err != nil {
			c.Violate("genesis only", fmt.Sprint(err, p), nil)
		}
	}
}
