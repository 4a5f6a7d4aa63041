// C10: a block extending a known block is checked against its ancestors.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"verif/conv"
	"verif/fix"
	"verif/hv"
	"verif/memstore"
	"verif/ref"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

var c *hv.Ctx

func main() {
	hv.Main("C10", "model_checking", "states: stored chains below, at and above mined blocks of heights 1 to 200, with the times and difficulties of every single ancestor (and of the blocks beyond the window, and above) varied; transitions: ProcessBlock of the mined block, with its difficulty at, below and above the computed one, of corrupted blocks, of the head and of blocks without a stored predecessor, in every order up to three. Every verdict and the state after it are compared with a reference of the rule. Non-trivial: the predecessor is stored.", run)
}

type past struct {
	ts       int64
	diff, td uint64
}

// scene is a stored chain and a block to process.
type scene struct {
	name    string
	cand    *ref.Header
	nonces  []uint32 // of the predecessor
	blocks  []past   // by height, from 0
	genesis *consensus.Block
	hasPrev bool
	head    int // height of the head
	diff    uint64
	prevID  string // "", "height", "hash": the predecessor is stored with another height or hash
}

func newScene(f *fix.Header) *scene {
	s := &scene{name: f.Name, cand: f.H, nonces: f.PrevNonces, hasPrev: true, head: int(f.H.Height) - 1}
	for h := 0; h < int(f.H.Height); h++ {
		s.blocks = append(s.blocks, past{f.H.TS - 60*(int64(f.H.Height)-int64(h)), 1000 + uint64(h*h*31%977), 5000 + uint64(h)})
	}
	s.blocks[len(s.blocks)-1].td = f.PrevTD
	return s
}

func (s *scene) clone() *scene {
	n := *s
	n.blocks = append([]past(nil), s.blocks...)
	return &n
}

// header of the block at a height.
func (s *scene) header(h int) *ref.Header {
	r := *s.cand
	p := s.blocks[h]
	r.Height, r.TS, r.TD, r.Scaling, r.EdgeBits = uint64(h), p.ts, p.td, 1000, 29
	r.Nonces = memstore.Nonces(uint32(h) + 100)
	if h == int(s.cand.Height)-1 && s.prevID != "hash" {
		r.Nonces = s.nonces
	}
	return &r
}

func (s *scene) store() (*memstore.Store, *consensus.Block) {
	st := &memstore.Store{}
	var prev [32]byte
	for h := range s.blocks {
		if h == int(s.cand.Height)-1 && !s.hasPrev {
			continue
		}
		r := s.header(h)
		r.Previous = prev
		prev = r.Hash()
		b := &consensus.Block{Header: conv.Header(r)}
		b.Header.Difficulty = consensus.Difficulty(s.blocks[h].diff)
		if s.prevID == "height" && h == int(s.cand.Height)-1 {
			b.Header.Height += 1000
			st.Others = append(st.Others, b)
			continue
		}
		st.Main = append(st.Main, b)
	}
	for _, b := range st.Main {
		if int(b.Header.Height) <= s.head {
			st.Last = b
		}
	}
	var gen *consensus.Block
	if len(st.Main) > 0 && st.Main[0].Header.Height == 0 {
		gen = st.Main[0]
	} else {
		gen = &chain.Testnet4
	}
	return st, gen
}

// next is the difficulty the rule demands.
func (s *scene) next() uint64 {
	var l []ref.Past
	for h := int(s.cand.Height) - 1; h >= 0 && len(l) < 71; h-- {
		l = append(l, ref.Past{TS: s.blocks[h].ts, Diff: s.blocks[h].diff})
	}
	return ref.Next(l)
}

func (s *scene) valid() bool {
	if !s.hasPrev || s.prevID != "" {
		return true
	}
	p := s.blocks[s.cand.Height-1]
	return s.cand.TS > p.ts && s.cand.TD == p.td+s.header(int(s.cand.Height)-1).Diff() && s.diff >= s.next()
}

// play processes the block and judges verdict and state.
func (s *scene) play(kind string, mutate func(b *consensus.Block) (stillValid bool)) {
	st, gen := s.store()
	b := memstore.Block(s.cand)
	b.Header.Difficulty = consensus.Difficulty(s.diff)
	want := s.valid()
	if mutate != nil && !mutate(b) {
		want = false
	}
	ch := chain.New(gen, st)
	head := ch.Head()
	h0, t0, d0, hash0 := ch.Height(), ch.TotalDifficulty(), st.Digest(), head.Hash().String()
	c.States(1)
	for round := 0; round < 2; round++ {
		c.Transitions(1)
		c.Traces(1)
		var err error
		key := fmt.Sprintf("%s %s", s.name, kind)
		p := c.Do(func() string { return key }, func() { err = ch.ProcessBlock(b) })
		c.Case(hv.Hash64([]byte(key), []byte(fmt.Sprint(s.blocks, s.diff, s.hasPrev, s.prevID, s.head))), s.hasPrev)
		replay := func() interface{} {
			return map[string]interface{}{"case": key, "candidate": fmt.Sprintf("%x", s.cand.Bytes()), "difficulty": s.diff, "next_difficulty": s.next(), "ancestors(time difficulty total)": fmt.Sprint(s.blocks), "predecessor stored": s.hasPrev, "verdict": fmt.Sprint(err)}
		}
		switch {
		case p != nil:
			c.Violate(kind+"/panic", fmt.Sprintf("%s: panic %v", key, p), replay())
			return
		case (err == nil) != want:
			c.Violate(fmt.Sprintf("%s/accepted=%v", kind, err == nil), fmt.Sprintf("%s: ProcessBlock returned %v, the rule says valid=%v (difficulty %d, demanded %d)", key, err, want, s.diff, s.next()), replay())
			return
		}
		head := ch.Head()
		if ch.Height() != h0 || ch.TotalDifficulty() != t0 || head.Hash().String() != hash0 {
			c.Violate(kind+"/state", fmt.Sprintf("%s: height %d, total difficulty %d changed to %d, %d", key, h0, t0, ch.Height(), ch.TotalDifficulty()), replay())
			return
		}
		if st.Digest() != d0 {
			c.Violate(kind+"/storage", key+": the stored blocks were changed", replay())
			return
		}
		c.Outcome(fmt.Sprintf("%s valid=%v", kind, want))
		c.Sample(kind+fmt.Sprint(want), replay)
	}
}

func run(ctx *hv.Ctx) {
	c = ctx
	list, by := fix.Headers()
	_ = list
	var scenes []*scene
	names := []string{"w70", "w71", "w72", "w73", "w200"}
	for _, n := range names {
		f := by[n]
		if f == nil {
			panic("no fixture " + n)
		}
		s := newScene(f)
		s.diff = s.next()
		if !s.valid() {
			panic("scene")
		}
		scenes = append(scenes, s)
	}
	if b1 := by["b1"]; b1 != nil { // directly above the genesis
		f := *b1
		f.PrevNonces = nil
		g := chain.Testnet4.Header
		for _, n := range g.POW.Nonces {
			f.PrevNonces = append(f.PrevNonces, n)
		}
		f.PrevTD = uint64(g.TotalDifficulty)
		s := newScene(&f)
		s.diff = s.next()
		scenes = append(scenes, s)
	}
	var jobs []func()
	add := func(s *scene, kind string, m func(b *consensus.Block) bool) {
		jobs = append(jobs, func() { s.play(kind, m) })
	}
	// level plays the three verdicts around the demanded difficulty
	level := func(s *scene, kind string) {
		d := s.next()
		for _, x := range []uint64{d - 1, d, d + 1, 0, 1, 1<<64 - 1} {
			n := s.clone()
			n.diff = x
			add(n, kind, nil)
		}
	}
	for _, s0 := range scenes {
		h := int(s0.cand.Height)
		level(s0, "plain")
		// the predecessor's time
		for _, d := range []int64{0, 1, -1, 2, -2, 59, 60, 61, 720, 3600, 1 << 32, -3600, -1 << 32} {
			s := s0.clone()
			s.blocks[h-1].ts = s.cand.TS + d
			s.diff = s.next()
			add(s, "predecessor time", nil)
		}
		// its total difficulty
		for _, d := range []int64{0, 1, -1, 2, 1000, -1000, int64(s0.header(h - 1).Diff()), -int64(s0.header(h - 1).Diff()), 1 << 32, 1 << 40} {
			s := s0.clone()
			s.blocks[h-1].td += uint64(d)
			s.diff = s.next()
			add(s, "predecessor total", nil)
		}
		// ... must not be mixed up with that of another block
		for i := 2; i <= 3 && h-i >= 0; i++ {
			s := s0.clone()
			s.blocks[h-i].td, s.blocks[h-1].td = s.blocks[h-1].td, s.blocks[h-i].td
			s.diff = s.next()
			add(s, "totals exchanged", nil)
		}
		// no predecessor, or only one that looks like it
		for _, n := range []string{"none", "height", "hash"} {
			for _, d := range []uint64{s0.diff, 0, 1<<64 - 1} {
				s := s0.clone()
				s.diff = d
				s.blocks[h-1].td += 5
				if n == "none" {
					s.hasPrev = false
				} else {
					s.prevID = n
				}
				if s.head == h-1 {
					s.head = h - 2
				}
				add(s, "predecessor "+n, nil)
				add(s, "predecessor "+n+" invalid", func(b *consensus.Block) bool { b.Header.POW.Nonces[3]++; return false })
			}
		}
		// every ancestor's time and difficulty, within and beyond the window
		for i := 1; i <= h; i++ {
			s := s0.clone()
			s.blocks[h-i].diff += 600000
			level(s, "ancestor difficulty")
			s = s0.clone()
			s.blocks[h-i].diff = 0
			level(s, "ancestor difficulty")
			if i > 1 {
				for _, t := range []int64{-100000, 100000, -3600} {
					s = s0.clone()
					s.blocks[h-i].ts += t
					level(s, "ancestor time")
				}
			}
		}
		// half a median window at once
		for from := 1; from <= h; from++ {
			if from > 80 && from < h-5 {
				continue
			}
			for _, t := range []int64{-4000, 4000} {
				s := s0.clone()
				for i := from; i < from+6 && i <= h; i++ {
					if i > 1 || t < 0 {
						s.blocks[h-i].ts += t
					}
				}
				level(s, "six ancestors' time")
			}
		}
		// block times of the whole window
		for _, step := range []int64{0, 1, 20, 30, 31, 61, 90, 119, 120, 121, 240, -60} {
			for _, diff := range []uint64{0, 1, 59, 60, 61, 1 << 20, 1 << 44} {
				s := s0.clone()
				for i := 1; i <= h; i++ {
					s.blocks[h-i].ts = s.cand.TS - 5 - int64(i)*step
					s.blocks[h-i].diff = diff
				}
				if s.blocks[h-1].ts < s.cand.TS {
					level(s, "block times")
				}
			}
		}
		// blocks at and above the height do not count, whatever the head is
		for up := 1; up <= 3; up++ {
			for _, extra := range []past{{s0.cand.TS + 60, 1 << 40, 9}, {s0.cand.TS - 100000, 0, 9}} {
				s := s0.clone()
				for i := 0; i < up; i++ {
					s.blocks = append(s.blocks, extra)
				}
				s.head = h - 1 + up
				level(s, "blocks above")
			}
		}
		// the head is elsewhere
		for _, hd := range []int{0, h / 2, h - 2} {
			if hd >= 0 && hd < h {
				s := s0.clone()
				s.head = hd
				level(s, "head below")
			}
		}
		// invalid blocks with everything else in order
		for i := 0; i < 42; i++ {
			i := i
			add(s0, "invalid proof", func(b *consensus.Block) bool { b.Header.POW.Nonces[i] ^= 1 << uint(i%29); return false })
		}
		muts := map[string]func(b *consensus.Block){
			"version":            func(b *consensus.Block) { b.Header.Version = 2 },
			"height":             func(b *consensus.Block) { b.Header.Height++ },
			"time":               func(b *consensus.Block) { b.Header.Timestamp = b.Header.Timestamp.Add(time.Second) },
			"future":             func(b *consensus.Block) { b.Header.Timestamp = time.Now().Add(24 * time.Hour) },
			"previous root":      func(b *consensus.Block) { b.Header.PreviousRoot[0]++ },
			"total":              func(b *consensus.Block) { b.Header.TotalDifficulty++ },
			"total and no more":  func(b *consensus.Block) { b.Header.TotalDifficulty += 1 << 40; b.Header.Difficulty = 1 << 40 },
			"nonce":              func(b *consensus.Block) { b.Header.Nonce++ },
			"scaling":            func(b *consensus.Block) { b.Header.ScalingDifficulty++ },
			"graph":              func(b *consensus.Block) { b.Header.POW.EdgeBits = 30; b.Header.ScalingDifficulty = 1 },
			"no outputs":         func(b *consensus.Block) { b.Outputs = nil },
			"no kernels":         func(b *consensus.Block) { b.Kernels = nil },
			"two coinbases":      func(b *consensus.Block) { b.Outputs = append(b.Outputs, b.Outputs[0]) },
			"two kernels":        func(b *consensus.Block) { b.Kernels = append(b.Kernels, b.Kernels[0]) },
			"kernel signature":   func(b *consensus.Block) { b.Kernels[0].ExcessSig[40] ^= 1 },
			"kernel fee":         func(b *consensus.Block) { b.Kernels[0].Fee++ },
			"coinbase feature":   func(b *consensus.Block) { b.Outputs[0].Features = 0 },
			"kernel feature":     func(b *consensus.Block) { b.Kernels[0].Features = 0 },
			"other's commitment": func(b *consensus.Block) { b.Outputs[0].Commit = &b.Kernels[0].Excess },
		}
		var names []string
		for n := range muts {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			m := muts[n]
			add(s0, "invalid "+n, func(b *consensus.Block) bool { m(b); return false })
			s := s0.clone()
			s.hasPrev, s.head = false, 0
			if h > 1 {
				add(s, "invalid "+n+", no predecessor", func(b *consensus.Block) bool { m(b); return false })
			}
		}
	}
	c.Par(len(jobs), func(i int) { jobs[i]() })
	if c.Stopped() {
		return
	}

	// blocks as they come from the network: the header's difficulty is not on the wire.
	// Up to height 70 the demanded difficulty is the minimum, which every proof has.
	for _, s0 := range scenes {
		if s0.cand.Height > 70 {
			continue
		}
		for _, bad := range []string{"", "total", "time"} {
			s := s0.clone()
			switch bad {
			case "total":
				s.blocks[s.cand.Height-1].td++
			case "time":
				s.blocks[s.cand.Height-1].ts = s.cand.TS
			}
			st, gen := s.store()
			for _, b := range st.Main {
				b.Header.Difficulty = 0
			}
			var b consensus.Block
			if err := b.Read(bytes.NewReader(memstore.Block(s.cand).Bytes())); err != nil {
				panic(err)
			}
			ch := chain.New(gen, st)
			var err error
			p := c.Do(func() string { return "wire" }, func() { err = ch.ProcessBlock(&b) })
			c.States(1)
			c.Transitions(1)
			c.Traces(1)
			rep := map[string]interface{}{"block": fmt.Sprintf("%x", b.Bytes()), "verdict": fmt.Sprint(err), "ancestors(time difficulty total)": fmt.Sprint(s.blocks)}
			switch {
			case p != nil || bad != "" && err == nil:
				c.Violate("wire", fmt.Sprintf("%s read from the wire, wrong %q: %v %v", s.name, bad, err, p), rep)
			case bad == "" && err != nil:
				c.Violate("wire-difficulty", fmt.Sprintf("a valid block of height %d, read from the wire, extending a stored block with the right time and total difficulty is rejected: %v", s.cand.Height, err), rep)
			}
			c.Outcome(fmt.Sprintf("wire wrong=%s", bad))
		}
	}

	// the head is accepted unseen, also a broken one; histories of blocks leave no trace
	for _, s0 := range scenes {
		for _, broken := range []func(b *consensus.Block){func(b *consensus.Block) {}, func(b *consensus.Block) { b.Header.Version = 9 }, func(b *consensus.Block) { b.Outputs = nil }, func(b *consensus.Block) { b.Header.Timestamp = time.Now().Add(time.Hour) }} {
			st, gen := s0.store()
			b := memstore.Block(s0.cand)
			broken(b)
			st.Last = b
			ch := chain.New(gen, st)
			cp := *b
			var err error
			p := c.Do(func() string { return "head" }, func() { err = ch.ProcessBlock(&cp) })
			c.States(1)
			c.Transitions(1)
			c.Traces(1)
			if p != nil || err != nil || ch.Height() != b.Header.Height || ch.TotalDifficulty() != b.Header.TotalDifficulty {
				c.Violate("head", fmt.Sprintf("%s: processing the head again: %v %v", s0.name, err, p), s0.name)
			}
			c.Outcome("head accepted")
		}
	}
	// every history of up to three blocks over good, low-difficulty, invalid, unknown and head
	s0 := scenes[2]
	events := []string{"good", "low", "invalid", "orphan", "head", "late"}
	var hist func(pre []int, n int)
	hist = func(pre []int, n int) {
		if len(pre) > 0 {
			st, gen := s0.store()
			ch := chain.New(gen, st)
			for _, e := range pre {
				b := memstore.Block(s0.cand)
				b.Header.Difficulty = consensus.Difficulty(s0.next())
				want := true
				switch events[e] {
				case "low":
					b.Header.Difficulty--
					want = false
				case "invalid":
					b.Kernels[0].ExcessSig[9]++
					want = false
				case "orphan":
					b = memstore.Block(by["w200"].H)
				case "head":
					x := *st.Last
					b = &x
				case "late":
					b = memstore.Block(scenes[1].cand)
					b.Header.Difficulty = 0 // w71's predecessor is not stored here
				}
				var err error
				p := c.Do(func() string { return fmt.Sprint(pre) }, func() { err = ch.ProcessBlock(b) })
				c.Transitions(1)
				if p != nil || (err == nil) != want || ch.Height() != st.Last.Header.Height || ch.TotalDifficulty() != st.Last.Header.TotalDifficulty {
					c.Violate("history", fmt.Sprintf("history %v: %s returned %v (panic %v)", pre, events[e], err, p), fmt.Sprint(pre))
					return
				}
			}
			c.States(1)
			c.Traces(1)
		}
		if n > 0 {
			for e := range events {
				hist(append(pre[:len(pre):len(pre)], e), n-1)
			}
		}
	}
	hist(nil, 3)
}
