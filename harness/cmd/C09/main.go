// C09: the difficulty rule follows the damped 60-block average.
package main

import (
	"fmt"
	"time"

	"verif/hv"
	"verif/ref"

	"github.com/dblokhin/gringo/consensus"
)

var c *hv.Ctx

func main() {
	hv.Main("C09", "exploration", "block lists of every length 0..200; every single block's and every pair of blocks' time and difficulty changed to boundary values; all 3^11 assignments of three times to each median window and all orders classes of distinct times in it; every span of the window second by second across both bounds; every difficulty near the divisions' boundaries. Compared with a reference in unbounded integers. Non-trivial: at least 71 blocks.", run)
}

func list(l []ref.Past) consensus.BlockList {
	bl := make(consensus.BlockList, len(l))
	for i, p := range l {
		bl[i].Header.Timestamp = time.Unix(p.TS, 0).UTC()
		bl[i].Header.Difficulty = consensus.Difficulty(p.Diff)
		// what must not count
		bl[i].Header.Height = uint64(i * 7)
		bl[i].Header.TotalDifficulty = consensus.Difficulty(1000 + i)
	}
	return bl
}

func check(kind string, l []ref.Past) bool {
	bl := list(l)
	return checkList(kind, l, bl)
}

func checkList(kind string, l []ref.Past, bl consensus.BlockList) bool {
	want := ref.Next(l)
	var got consensus.Difficulty
	p := hv.Try(func() { got = consensus.NextDifficulty(bl) })
	h := uint64(len(l))
	for _, x := range l {
		h = (h*1099511628211 ^ uint64(x.TS)) * 1099511628211
		h ^= x.Diff
	}
	c.Case(h, len(l) >= 71)
	c.Sample(kind, func() interface{} { return fmt.Sprint(len(l), " blocks -> ", want) })
	if p != nil || uint64(got) != want {
		c.Violate(kind, fmt.Sprintf("%s: %d blocks: next difficulty %d (panic %v), want %d", kind, len(l), got, p, want), fmt.Sprint(l))
		return false
	}
	for i := range l {
		if bl[i].Header.Timestamp.Unix() != l[i].TS || uint64(bl[i].Header.Difficulty) != l[i].Diff {
			c.Violate(kind+"/modified", fmt.Sprintf("%s: the list was modified at %d", kind, i), fmt.Sprint(l))
			return false
		}
	}
	return true
}

// base is a list with block interval step.
func base(n int, step int64, diff func(i int) uint64) []ref.Past {
	l := make([]ref.Past, n)
	for i := range l {
		l[i] = ref.Past{TS: 1600000000 - int64(i)*step, Diff: diff(i)}
	}
	return l
}

func run(ctx *hv.Ctx) {
	c = ctx
	flat := func(d uint64) func(int) uint64 { return func(int) uint64 { return d } }
	mixed := func(i int) uint64 { return uint64(1000 + i*i*37%911) }
	steps := []int64{60, 0, 1, 29, 30, 31, 59, 61, 119, 120, 121, 180, 300, 1000, -60, -1, 1 << 20, 1 << 33}

	// every length
	c.Par(201, func(n int) {
		for _, s := range steps {
			for _, d := range []func(int) uint64{flat(0), flat(1), flat(59), flat(60), flat(1000), flat(1 << 40), mixed, func(i int) uint64 { return uint64(i) }, func(i int) uint64 { return 1 << uint(i%40) }} {
				check("length", base(n, s, d))
			}
		}
	})

	// the span, second by second: move the latest window against the oldest
	c.Par(2000, func(k int) {
		for j := 0; j < 20; j++ {
			span := int64(k*20+j) - 8000
			l := base(71, 0, mixed)
			for i := 0; i < 60; i++ {
				l[i].TS += span
			}
			if !check("span", l) {
				return
			}
			for i := 11; i < 60; i++ { // the middle does not count
				l[i].TS = int64(i) * 1e6
			}
			check("span, other middle", l)
		}
	})

	// the average: sums around multiples of 60, and difficulties near the divisions
	c.Par(600, func(k int) {
		for _, s := range []int64{1, 30, 60, 61, 100, 240, 480} {
			for _, lo := range []uint64{0, 1, 2, 100, 1<<32 - 5, 1 << 45} {
				l := base(71, s, flat(lo))
				l[k%60].Diff += uint64(k)
				check("average", l)
				l[60+k%11].Diff = 1 << 60 // not in the average
				check("average", l)
			}
		}
	})

	// each block, and each pair of blocks, of lists longer than the window
	vals := []ref.Past{{1600000000 + 100000, 0}, {1600000000 - 1e7, 1 << 44}, {ref.MinTS, 1}, {ref.MaxTS, 77777}, {1600000000 - 3600, 1000000}}
	c.Par(90*90, func(k int) {
		i, j := k/90, k%90
		if i > j {
			return
		}
		for _, n := range []int{71, 72, 90} {
			if j >= n {
				continue
			}
			for _, v := range vals {
				for _, w := range vals {
					l := base(n, 60, mixed)
					l[i].TS, l[j].Diff = v.TS, w.Diff
					check("pair time/difficulty", l)
					l[j].TS = w.TS
					check("pair times", l)
				}
			}
		}
	})
	if c.Stopped() {
		return
	}

	// medians: every assignment of three times to either window
	n := 177147
	c.Par(n/729, func(hi int) {
		l := base(75, 60, mixed)
		bl := list(l)
		for lo := 0; lo < 729; lo++ {
			for w, at := range []int{0, 60} {
				x := hi*729 + lo
				for i := 0; i < 11; i++ {
					l[at+i].TS = []int64{1600000000 - 7000, 1600000000 - 3600, 1600000000 + 500}[x%3]
					bl[at+i].Header.Timestamp = time.Unix(l[at+i].TS, 0).UTC()
					x /= 3
				}
				if !checkList(fmt.Sprint("median window ", w), l, bl) {
					return
				}
				for i := 0; i < 11; i++ { // back
					l[at+i].TS = 1600000000 - int64(at+i)*60
					bl[at+i].Header.Timestamp = time.Unix(l[at+i].TS, 0).UTC()
				}
			}
		}
	})
	// distinct times: all permutations of 7 of them (8 thorough), and every rotation and exchange of 11
	m := 7
	if c.Thorough {
		m = 9
	}
	perms := permute(m)
	c.Par(len(perms), func(k int) {
		for _, at := range []int{0, 60} {
			for _, off := range []int{0, 2, 11 - m} {
				l := base(72, 60, mixed)
				for i, p := range perms[k] {
					l[at+off+i].TS = 1600000000 - int64(at+off+p)*61
				}
				check("order in the median window", l)
			}
		}
	})
	c.Par(11*11*11, func(k int) {
		r, i, j := k/121, k/11%11, k%11
		for _, at := range []int{0, 60} {
			l := base(72, 60, mixed)
			w := make([]int64, 11)
			for x := range w {
				w[x] = 1600000000 - int64(at)*60 - int64((x+r)%11)*97
			}
			w[i], w[j] = w[j], w[i]
			for x := range w {
				l[at+x].TS = w[x]
			}
			check("rotation in the median window", l)
		}
	})
}

func permute(n int) (out [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				rec(append(p, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return
}
