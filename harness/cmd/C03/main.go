// C03: a header is accepted exactly when it obeys the header rules.
package main

import (
	"bytes"
	"fmt"
	"time"

	"verif/fix"
	"verif/hv"
	"verif/ref"
	"verif/vclock"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/cuckoo"
)

var c *hv.Ctx

func main() {
	hv.Main("C03", "exploration", "headers with a real proof of work (mined for every version and height boundary, graph size, scaling and timestamp class) under every clock offset around the limit; every single-bit change of every byte of each of them; every nonce removed, doubled, changed by one and exchanged with every other; every graph size 0..255, every version 0..65535; cycles of every length up to 130 (nonces given edges by a hook) for every graph size; every list of up to four headers over an alphabet of valid and invalid ones. Each is decided by an independent reference of the header rule. Non-trivial: the header differs from a valid one in a single place, or is valid.", run)
}

func toRepo(raw []byte) (h consensus.BlockHeader, err error) {
	err = h.Read(bytes.NewReader(raw))
	return
}

// toRef converts a header of the code under test.
func toRef(h *consensus.BlockHeader) *ref.Header {
	r := &ref.Header{Version: h.Version, Height: h.Height, TS: h.Timestamp.Unix(), OutputMmr: h.OutputMmrSize, KernelMmr: h.KernelMmrSize,
		TD: uint64(h.TotalDifficulty), Scaling: h.ScalingDifficulty, Nonce: h.Nonce, EdgeBits: h.POW.EdgeBits, Nonces: h.POW.Nonces}
	copy(r.Previous[:], h.Previous)
	copy(r.PreviousRoot[:], h.PreviousRoot)
	copy(r.UTXORoot[:], h.UTXORoot)
	copy(r.RangeProofRoot[:], h.RangeProofRoot)
	copy(r.KernelRoot[:], h.KernelRoot)
	copy(r.Offset[:], h.TotalKernelOffset)
	return r
}

// judge validates one header and compares with the rule.
func judge(kind, key string, h *consensus.BlockHeader, want bool, now time.Time) {
	var err error
	p := c.Do(func() string { return kind + key }, func() { err = h.Validate() })
	replay := func() interface{} {
		return map[string]interface{}{"kind": kind, "case": key, "clock": now.String(), "version": h.Version, "height": h.Height, "timestamp": h.Timestamp.Unix(),
			"edge_bits": h.POW.EdgeBits, "scaling": h.ScalingDifficulty, "nonces": fmt.Sprint(h.POW.Nonces), "nonce": h.Nonce}
	}
	c.Case(hv.Hash64([]byte(kind), []byte(key)), true)
	switch {
	case p != nil:
		c.Violate(kind+"/panic", fmt.Sprintf("%s %s: validation panics: %v", kind, key, p), replay())
	case (err == nil) != want:
		c.Violate(fmt.Sprintf("%s/accepted=%v", kind, err == nil), fmt.Sprintf("%s %s: Validate returned %v, the rule says valid=%v", kind, key, err, want), replay())
	default:
		c.Outcome(fmt.Sprintf("%s valid=%v", kind, want))
		c.Sample(fmt.Sprintf("%s/%v", kind, want), replay)
	}
}

func setClock(t time.Time) { vclock.Time = t }

type store struct{}

func (store) AddBlock(*consensus.Block)                                {}
func (store) DelBlock(consensus.BlockID)                               {}
func (store) GetBlock(consensus.BlockID) *consensus.Block              { return nil }
func (store) GetLastBlock() *consensus.Block                           { return nil }
func (store) From(id consensus.BlockID, limit int) consensus.BlockList { return nil }

func run(ctx *hv.Ctx) {
	c = ctx
	list, by := fix.Headers()
	block := fix.Block65927()
	bh, _, ok := ref.ParseHeader(block)
	if !ok || !bh.CycleValid() {
		panic("recorded block")
	}
	rec := &fix.Header{Name: "block65927", Raw: bh.Bytes(), H: bh}
	list = append(list, rec)
	c.Set("mined_headers", len(list))

	// 1. every fixture under every clock
	offs := []time.Duration{}
	for _, base := range []time.Duration{-720 * time.Second, -721 * time.Second, -719 * time.Second, 0, -60 * time.Second, -12 * time.Second, -72 * time.Second, -7200 * time.Second, 720 * time.Second, time.Hour, -time.Hour, 24 * time.Hour, -24 * time.Hour, 3650 * 24 * time.Hour, -3650 * 24 * time.Hour} {
		for _, d := range []time.Duration{0, 1, -1, time.Millisecond, -time.Millisecond, time.Second / 2, -time.Second / 2} {
			offs = append(offs, base+d)
		}
	}
	for _, f := range list {
		times := []time.Time{time.Date(2018, 10, 1, 0, 0, 0, 0, time.UTC), time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2100, 1, 1, 0, 0, 0, 0, time.FixedZone("x", 3600*13))}
		for _, o := range offs {
			times = append(times, time.Unix(f.H.TS, 0).Add(o), time.Unix(f.H.TS, 0).Add(o).In(time.FixedZone("y", -3600*11)))
		}
		h, err := toRepo(f.Raw)
		if err != nil {
			c.Violate("read/"+f.Name, "a valid header cannot be read: "+err.Error(), fmt.Sprintf("%x", f.Raw))
			continue
		}
		valid := f.H.Valid(time.Unix(f.H.TS, 0))
		for _, t := range times {
			setClock(t)
			want := valid && f.H.Valid(t)
			judge("clock", fmt.Sprintf("%s at %d.%09d", f.Name, t.Unix(), t.Nanosecond()), &h, want, t)
		}
	}
	if c.Stopped() {
		return
	}

	// 2. the version schedule
	setClock(time.Date(2018, 12, 1, 0, 0, 0, 0, time.UTC))
	var heights []uint64
	for _, b := range []uint64{0, 1, 1000, 65927, 95000, 190000, 250000, 344999, 345000, 500000, 750000, 1000000, 1 << 16, 1 << 31, 1 << 32, 1 << 62, 1 << 63, 1<<64 - 3} {
		for d := int64(-2); d <= 2; d++ {
			heights = append(heights, b+uint64(d))
		}
	}
	for _, h := range heights {
		for v := 0; v < 1<<16; v++ {
			want := ref.VersionAt(h) == uint16(v) && v != 0
			got := consensus.ValidateBlockVersion(h, uint16(v))
			c.Case(h<<17^uint64(v)<<1^1, want || v <= 4)
			if got != want {
				c.Violate(fmt.Sprintf("version/%d/%d", h, v), fmt.Sprintf("version %d at height %d: allowed=%v, want %v", v, h, got, want), nil)
			}
		}
	}
	for h := uint64(0); h <= 1000001; h++ {
		for v := 0; v <= 5; v++ {
			want := ref.VersionAt(h) == uint16(v) && v != 0
			got := consensus.ValidateBlockVersion(h, uint16(v))
			c.Case(h<<17^uint64(v)<<1^1, true)
			if got != want {
				c.Violate(fmt.Sprintf("version/%d/%d", h, v), fmt.Sprintf("version %d at height %d: allowed=%v, want %v", v, h, got, want), nil)
				break
			}
		}
	}
	// validation itself must use the schedule (the proof does not hold for these, so they are all invalid;
	// the mined headers above decide the other direction)
	for _, f := range list {
		for v := 0; v < 8; v++ {
			h, _ := toRepo(f.Raw)
			h.Version = uint16(v)
			r := toRef(&h)
			judge("version", fmt.Sprintf("%s v%d", f.Name, v), &h, r.Valid(vclock.Time), vclock.Time)
		}
	}

	// 3. every single-bit change of the bytes
	bitFixtures := list
	now := vclock.Time
	for _, f := range bitFixtures {
		f := f
		c.Par(len(f.Raw)*8, func(i int) {
			raw := append([]byte(nil), f.Raw...)
			raw[i/8] ^= 1 << uint(i%8)
			if f.Raw[ref.PreSize] != raw[ref.PreSize] {
				// another graph size: more or fewer bytes
				raw = append(raw, make([]byte, 200)...)
			}
			r, _, ok := ref.ParseHeader(raw)
			h, err := toRepo(raw)
			key := fmt.Sprintf("%s bit %d", f.Name, i)
			if err != nil {
				if ok {
					c.Violate("bit/unreadable", key+": a well-formed header cannot be read: "+err.Error(), key)
				}
				c.Case(hv.Hash64([]byte(key)), true)
				c.Outcome("bit unreadable")
				return
			}
			if !ok {
				c.Violate("bit/readable", key+": a malformed header is read", key)
				return
			}
			judge("bit", key, &h, r.Valid(now), now)
		})
		if c.Stopped() {
			return
		}
	}

	// 4. every change of the nonces and of the fields in memory
	var muts []func(h *consensus.BlockHeader) string
	for i := 0; i < 42; i++ {
		i := i
		for _, d := range []uint32{1, ^uint32(0), 1 << 29, 1 << 30, 1 << 31, 1 << 28, 42} {
			d := d
			muts = append(muts, func(h *consensus.BlockHeader) string {
				h.POW.Nonces[i] += d
				return fmt.Sprintf("nonce %d += %d", i, int32(d))
			})
		}
		muts = append(muts, func(h *consensus.BlockHeader) string {
			h.POW.Nonces = append(h.POW.Nonces[:i:i], h.POW.Nonces[i+1:]...)
			return fmt.Sprintf("nonce %d removed", i)
		}, func(h *consensus.BlockHeader) string {
			n := append([]uint32{}, h.POW.Nonces[:i+1]...)
			h.POW.Nonces = append(n, h.POW.Nonces[i:]...)
			return fmt.Sprintf("nonce %d twice", i)
		}, func(h *consensus.BlockHeader) string {
			h.POW.Nonces = append([]uint32{}, h.POW.Nonces[:i]...)
			return fmt.Sprintf("cut to %d nonces", i)
		}, func(h *consensus.BlockHeader) string {
			h.POW.Nonces = append(append([]uint32{}, h.POW.Nonces[i:]...), h.POW.Nonces[:i]...)
			return fmt.Sprintf("rotated by %d", i)
		})
		for j := 0; j < i; j++ {
			j := j
			muts = append(muts, func(h *consensus.BlockHeader) string {
				h.POW.Nonces[i], h.POW.Nonces[j] = h.POW.Nonces[j], h.POW.Nonces[i]
				return fmt.Sprintf("nonces %d and %d exchanged", i, j)
			}, func(h *consensus.BlockHeader) string {
				h.POW.Nonces[i] = h.POW.Nonces[j]
				return fmt.Sprintf("nonce %d replaced by %d", i, j)
			})
		}
	}
	for e := 0; e < 256; e++ {
		e := e
		muts = append(muts, func(h *consensus.BlockHeader) string {
			h.POW.EdgeBits = uint8(e)
			return fmt.Sprintf("edge bits %d", e)
		}, func(h *consensus.BlockHeader) string {
			h.POW.EdgeBits = uint8(e)
			h.ScalingDifficulty = 1
			return fmt.Sprintf("edge bits %d scaling 1", e)
		})
	}
	for s := uint32(0); s < 64; s++ {
		s := s
		muts = append(muts, func(h *consensus.BlockHeader) string {
			if s < 32 {
				h.ScalingDifficulty = 1 << s
			} else {
				h.ScalingDifficulty = s - 32
			}
			return fmt.Sprintf("scaling %d", h.ScalingDifficulty)
		})
	}
	// uncommitted members do not count, whatever they are
	muts = append(muts, func(h *consensus.BlockHeader) string { h.Difficulty = 77; return "difficulty 77" },
		func(h *consensus.BlockHeader) string {
			h.TotalKernelSum = bytes.Repeat([]byte{8}, 33)
			return "kernel sum"
		},
		func(h *consensus.BlockHeader) string {
			h.Timestamp = h.Timestamp.In(time.FixedZone("z", 3600))
			return "time zone"
		},
		func(h *consensus.BlockHeader) string { return "unchanged" })
	memFixtures := bitFixtures
	for _, f := range memFixtures {
		f := f
		c.Par(len(muts), func(i int) {
			h, _ := toRepo(f.Raw)
			what := muts[i](&h)
			r := toRef(&h)
			var want bool
			if len(r.Nonces) == 42 {
				want = r.Valid(now)
			}
			judge("member", f.Name+" "+what, &h, want, now)
		})
		if c.Stopped() {
			return
		}
	}

	// 5. lists of headers
	var alphabet []consensus.BlockHeader
	var valid []bool
	for _, n := range []string{"b1", "b2", "small28", "block65927", "v1_95000", "w70"} {
		f := by[n]
		if n == "block65927" {
			f = rec
		}
		if f == nil {
			continue
		}
		h, _ := toRepo(f.Raw)
		alphabet = append(alphabet, h)
		valid = append(valid, f.H.Valid(now))
	}
	{
		h, _ := toRepo(rec.Raw)
		h.POW.Nonces[41]++
		alphabet, valid = append(alphabet, h), append(valid, false)
		h, _ = toRepo(rec.Raw)
		h.Version = 3
		alphabet, valid = append(alphabet, h), append(valid, false)
	}
	ch := chain.New(&chain.Testnet4, store{})
	var idx []int
	var lists [][]int
	top := 3
	if c.Thorough {
		top = 4
	}
	var gen func(n int)
	gen = func(n int) {
		lists = append(lists, append([]int(nil), idx...))
		if n == 0 {
			return
		}
		for i := range alphabet {
			idx = append(idx, i)
			gen(n - 1)
			idx = idx[:len(idx)-1]
		}
	}
	gen(top)
	// longer lists with one invalid header at every position
	for _, n := range []int{5, 10, 64, 512} {
		for at := -1; at < n; at++ {
			if n > 64 && at >= 3 && at < n-3 && at != n/2 {
				continue
			}
			l := make([]int, n)
			if at >= 0 {
				l[at] = len(alphabet) - 1
			}
			lists = append(lists, l)
		}
	}
	c.Par(len(lists), func(i int) {
		want := true
		var hs []consensus.BlockHeader
		for _, j := range lists[i] {
			want = want && valid[j]
			hs = append(hs, alphabet[j])
		}
		var err error
		p := c.Do(func() string { return fmt.Sprint("list ", lists[i]) }, func() { err = ch.ProcessHeaders(hs) })
		c.Case(hv.Hash64([]byte(fmt.Sprint("list", lists[i]))), true)
		c.Outcome(fmt.Sprintf("list valid=%v", want))
		if p != nil || (err == nil) != want {
			c.Violate(fmt.Sprintf("list/%v", want), fmt.Sprintf("headers %v (valid: %v): ProcessHeaders returned %v (panic %v), want valid=%v", lists[i], valid, err, p, want), lists[i])
		}
	})

	// 6. cycles of every length: some nonces form a cycle for every key
	if c.Stopped() {
		return
	}
	length := 0
	cuckoo.VerifHook = func(block bool, key [4]uint64, nonce uint64) (uint64, bool) {
		if !block || nonce >= uint64(length) {
			return 0, false
		}
		u, v := 7+(nonce+1)/2%(uint64(length+1)/2), 1000+nonce/2
		return u | v<<32, true
	}
	defer func() { cuckoo.VerifHook = nil }()
	nonces := func(n int) (l []uint32) {
		for length = n; n > 0; n-- {
			l = append(l, uint32(length-n))
		}
		return
	}
	now = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	setClock(now)
	h, _ := toRepo(rec.Raw)
	h.POW.Nonces = nonces(42)
	if h.Validate() != nil {
		c.Set("cycle_lengths", "skipped, the hook has no effect")
		return
	}
	c.Assume("cycles of other lengths: the hook gives edges to some nonces; it does not touch the verifier or the validation")
	for n := 0; n <= 130; n++ {
		l := nonces(n)
		for e := 0; e < 256; e++ {
			for _, scaling := range []uint32{0, 1, 2} {
				h, _ := toRepo(rec.Raw)
				h.POW.Nonces, h.POW.EdgeBits, h.ScalingDifficulty = l, uint8(e), scaling
				if n == 42 && e >= 32 {
					continue // decided with real cycles
				}
				judge("length", fmt.Sprintf("cycle of %d, %d edge bits, scaling %d", n, e, scaling), &h, n == 42 && (e == 29 || e > 29 && scaling == 1), now)
			}
		}
	}
}
