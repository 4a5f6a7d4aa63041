// C11: a header request is answered from the first known locator.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/conv"
	"verif/fix"
	"verif/hv"
	"verif/memstore"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

var c *hv.Ctx

func main() {
	hv.Main("C11", "model_checking", "states: stored chains of 1 to 1100 blocks, or none; transitions: header requests with every locator over {genesis, middle, below the head, head, unknown, empty, truncated, over-long} up to the depth, and with every pair of such hashes at every position of locators up to 17 hashes, each compared with a walk of the model, and block lookups by hash, height and both. Non-trivial: a locator hash is known.", run)
}

const maxLoc, maxHeaders = 14, 512

type world struct {
	st  *memstore.Store
	gen *consensus.Block
	ch  *chain.Chain
	n   int
}

func newWorld(n int, base *consensus.BlockHeader) *world {
	w := &world{st: &memstore.Store{}, n: n}
	var prev []byte = bytes.Repeat([]byte{0xff}, 32)
	for h := 0; h < n; h++ {
		b := &consensus.Block{Header: *base}
		b.Header.Height, b.Header.Previous = uint64(h), prev
		b.Header.POW = consensus.Proof{EdgeBits: 29, Nonces: memstore.Nonces(uint32(h) + 100)}
		b.Header.TotalDifficulty = consensus.Difficulty(1000 + 7*h)
		b.Header.Difficulty = consensus.Difficulty(h)
		prev = b.Hash()
		w.st.Main = append(w.st.Main, b)
	}
	w.st.Freeze()
	w.gen = &chain.Testnet4
	if n > 0 {
		w.gen = w.st.Main[0]
		w.st.Last = w.st.Main[n-1]
	}
	w.ch = chain.New(w.gen, w.st)
	return w
}

// hash of a symbol: height, or -1 unknown, -2 nil, -3 empty, -4 truncated head, -5 head with a byte more, -6 zeroes
func (w *world) hash(sym int) consensus.Hash {
	head := w.gen.Hash()
	if w.n > 0 {
		head = w.st.Main[w.n-1].Hash()
	}
	switch {
	case sym >= 0 && w.n == 0:
		return w.gen.Hash()
	case sym >= 0:
		return append(consensus.Hash(nil), w.st.Main[sym].Hash()...)
	case sym == -2:
		return nil
	case sym == -3:
		return consensus.Hash{}
	case sym == -4:
		return append(consensus.Hash(nil), head[:31]...)
	case sym == -5:
		return append(append(consensus.Hash(nil), head...), 0)
	case sym == -6:
		return make(consensus.Hash, 32)
	}
	x := append(consensus.Hash(nil), head...)
	x[31] ^= byte(1 - sym)
	return x
}

// expect is the model: first height and number of headers.
func (w *world) expect(l []int) (from, count int) {
	for i, s := range l {
		if i >= maxLoc {
			break
		}
		if s >= 0 {
			if w.n == 0 {
				return 0, 0
			}
			count = w.n - 1 - s
			if count > maxHeaders {
				count = maxHeaders
			}
			return s + 1, count
		}
	}
	return 0, 0
}

func (w *world) play(l []int) bool {
	var loc consensus.Locator
	known := false
	for _, s := range l {
		loc.Hashes = append(loc.Hashes, w.hash(s))
		known = known || s >= 0
	}
	var got []consensus.BlockHeader
	name := fmt.Sprintf("chain of %d, locator %v", w.n, l)
	p := c.Do(func() string { return name }, func() { got = w.ch.GetBlockHeaders(loc) })
	c.Transitions(1)
	c.Traces(1)
	c.Case(hv.Hash64([]byte(name)), known)
	bad := func(key, what string) bool {
		c.Violate(key, name+": "+what, map[string]interface{}{"chain length": w.n, "locator (heights; negative: unknown)": fmt.Sprint(l)})
		return false
	}
	if p != nil {
		return bad("panic", fmt.Sprint(p))
	}
	from, count := w.expect(l)
	if len(got) != count {
		return bad("count", fmt.Sprintf("%d headers, want %d from height %d", len(got), count, from))
	}
	for i := range got {
		want := &w.st.Main[from+i].Header
		same := got[i].Height == want.Height && got[i].TotalDifficulty == want.TotalDifficulty && got[i].Difficulty == want.Difficulty && bytes.Equal(got[i].Previous, want.Previous) && got[i].POW.Nonces[0] == want.POW.Nonces[0]
		if same && (i == 0 || i == count-1) {
			same = bytes.Equal(got[i].Bytes(), want.Bytes())
		}
		if !same {
			return bad("header", fmt.Sprintf("header %d is of height %d, want %d", i, got[i].Height, want.Height))
		}
	}
	c.Outcome(fmt.Sprintf("known=%v empty=%v full=%v", known, count == 0, count == maxHeaders))
	c.Sample(fmt.Sprint(known, count == 0, count == maxHeaders, len(l) > maxLoc), func() interface{} {
		return map[string]interface{}{"chain length": w.n, "locator": fmt.Sprint(l), "first": from, "headers": count}
	})
	return true
}

// grown asks a chain that was opened when top was the last block.
func (w *world) grown(top int) {
	st := *w.st
	st.Last = w.st.Main[top]
	ch := chain.New(w.gen, &st)
	c.States(1)
	for _, s := range []int{0, top / 2, top - 1, top, top + 1, w.n - 2, w.n - 1} {
		if s < 0 {
			continue
		}
		for shape := 0; shape < 3; shape++ {
			var loc consensus.Locator
			name := fmt.Sprintf("chain of %d opened at %d, locator of %d (%d)", w.n, top, s, shape)
			if shape == 1 {
				loc.Hashes = append(loc.Hashes, w.hash(-1), w.hash(-9))
			}
			loc.Hashes = append(loc.Hashes, w.hash(s))
			if shape == 2 {
				loc.Hashes = append(loc.Hashes, w.hash(0), w.hash(-1))
			}
			var got []consensus.BlockHeader
			p := c.Do(func() string { return name }, func() { got = ch.GetBlockHeaders(loc) })
			c.Transitions(1)
			c.Traces(1)
			c.Case(hv.Hash64([]byte(name)), true)
			// up to what it was opened with, or up to what is stored
			known, stored := top-s, w.n-1-s
			if s >= top {
				known = 0
			}
			if s == top {
				stored = 0
			}
			if known > maxHeaders {
				known = maxHeaders
			}
			if stored > maxHeaders {
				stored = maxHeaders
			}
			bad := p != nil || len(got) != known && len(got) != stored
			for i := 0; i < len(got) && !bad; i++ {
				bad = got[i].Height != uint64(s+1+i)
			}
			if bad {
				c.Violate("grown", fmt.Sprintf("%s: %d headers, want the %d (or %d) that follow (panic %v)", name, len(got), stored, known, p), name)
				return
			}
			c.Outcome(fmt.Sprintf("grown empty=%v", len(got) == 0))
		}
	}
}

func (w *world) lookups() {
	for s := -6; s < w.n; s++ {
		if s > 10 && s < w.n-10 {
			continue
		}
		h := w.hash(s)
		var got, byBoth, byHeight, wrong *consensus.Block
		ht, ht2 := uint64(int64(s)), uint64(int64(s)+1)
		p := c.Do(func() string { return "lookup" }, func() {
			got = w.ch.GetBlock(h)
			byBoth = w.ch.GetBlockID(consensus.BlockID{Hash: h, Height: &ht})
			byHeight = w.ch.GetBlockID(consensus.BlockID{Height: &ht})
			wrong = w.ch.GetBlockID(consensus.BlockID{Hash: h, Height: &ht2})
		})
		c.Transitions(4)
		c.Traces(1)
		var want *consensus.Block
		if s >= 0 && w.n > 0 {
			want = w.st.Main[s]
		}
		same := func(a *consensus.Block) bool {
			return (a == nil) == (want == nil) && (a == nil || bytes.Equal(a.Header.Bytes(), want.Header.Bytes()))
		}
		if h == nil { // by height alone nothing has these heights
			byBoth = nil
			wrong = nil
		}
		if p != nil || !same(got) || !same(byBoth) || !same(byHeight) || wrong != nil {
			c.Violate("lookup", fmt.Sprintf("chain of %d: lookup of %d: panic %v, by hash %v, both %v, height %v, mismatched %v", w.n, s, p, same(got), same(byBoth), same(byHeight), wrong == nil), s)
			return
		}
		c.Outcome(fmt.Sprintf("lookup found=%v", want != nil))
	}
}

func run(ctx *hv.Ctx) {
	c = ctx
	_, by := fix.Headers()
	base := conv.Header(by["w70"].H)
	sizes := []int{0, 1, 2, 3, 4, 5, 14, 15, 16, 100, 510, 511, 512, 513, 514, 515, 600, 1024, 1025, 1026, 1100}
	if c.Thorough {
		for n := 6; n < 1300; n += 7 {
			sizes = append(sizes, n)
		}
	}
	c.Par(len(sizes), func(i int) {
		n := sizes[i]
		w := newWorld(n, &base)
		c.States(1)
		digest := w.st.Digest()
		heights := map[int]bool{}
		var syms []int
		add := func(hs ...int) {
			for _, h := range hs {
				if h >= 0 && (h < n || n == 0 && h == 0) && !heights[h] {
					heights[h] = true
					syms = append(syms, h)
				}
			}
		}
		add(0, 1, n/2, n-2, n-1)
		small := append([]int(nil), syms...)
		add(n-511, n-512, n-513, n-514, n-515, n-3, 2)
		bad := []int{-1, -2, -3, -4, -5, -6, -7}
		// every locator of one or two hashes; up to depth over a smaller alphabet
		all := append(append([]int(nil), syms...), bad...)
		for _, a := range append([]int{-1 << 30}, all...) {
			if a == -1<<30 {
				if !w.play(nil) {
					return
				}
				continue
			}
			if !w.play([]int{a}) {
				return
			}
			for _, b := range all {
				if !w.play([]int{a, b}) {
					return
				}
			}
		}
		alpha := append(append([]int(nil), small...), -1, -2)
		depth := 4
		if n > 200 {
			depth = 3
		}
		if c.Thorough {
			depth++
		}
		var rec func(pre []int, d int) bool
		rec = func(pre []int, d int) bool {
			if len(pre) > 2 && !w.play(pre) {
				return false
			}
			if d == 0 || c.Expired() {
				return true
			}
			for _, a := range alpha {
				if !rec(append(pre[:len(pre):len(pre)], a), d-1) {
					return false
				}
			}
			return true
		}
		if !rec(nil, depth) {
			return
		}
		// two known hashes anywhere in a locator of unknown ones
		for l := 1; l <= 17; l++ {
			for p1 := 0; p1 < l; p1++ {
				for p2 := p1; p2 < l; p2++ {
					for _, a := range small {
						for _, b := range small {
							if p1 == p2 && a != b {
								continue
							}
							if n > 200 && (p1 < 12 && p1 > 1) {
								continue
							}
							loc := make([]int, l)
							for i := range loc {
								loc[i] = -7 - i
							}
							loc[p1], loc[p2] = a, b
							if !w.play(loc) {
								return
							}
						}
					}
				}
			}
		}
		// every height of the chain once, first and last in a locator
		for h := 0; h < n; h++ {
			if !w.play([]int{h}) || !w.play([]int{-1, h, n - 1}) || !w.play([]int{-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, h}) {
				return
			}
		}
		w.lookups()
		// blocks that were stored after the chain was opened
		for _, d := range []int{1, 2, 5, 600} {
			if n > 0 && d < n {
				w.grown(n - 1 - d)
			}
		}
		// nothing changed and nothing stayed locked
		if w.st.Digest() != digest || len(w.st.Writes) > 0 || n > 0 && (w.ch.Height() != uint64(n-1) || w.ch.TotalDifficulty() != w.st.Last.Header.TotalDifficulty) {
			c.Violate("state", fmt.Sprintf("chain of %d: requests changed the chain (%s)", n, strings.Join(w.st.Writes, " ")), n)
		}
		head := w.ch.Head()
		c.Do(func() string { return "processing the head after the requests" }, func() {
			if err := w.ch.ProcessBlock(&head); err != nil {
				c.Violate("head", err.Error(), n)
			}
		})
		if !bytes.Equal(head.Hash(), w.hash(n-1)) && n > 0 {
			c.Violate("head", "another head", n)
		}
	})
}
