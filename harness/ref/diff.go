package ref

import (
	"math/big"
	"sort"
)

// Past is a block as the difficulty rule sees it.
type Past struct {
	TS   int64
	Diff uint64
}

// Next is the difficulty after the given blocks, from latest to oldest.
func Next(l []Past) uint64 {
	if len(l) == 0 {
		return 0
	}
	if len(l) < 71 {
		return 1
	}
	sum := new(big.Int)
	for _, b := range l[:60] {
		sum.Add(sum, new(big.Int).SetUint64(b.Diff))
	}
	avg := sum.Div(sum, big.NewInt(60))
	median := func(w []Past) *big.Int {
		ts := make([]int64, 0, 11)
		for _, b := range w {
			ts = append(ts, b.TS)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		return big.NewInt(ts[5])
	}
	span := new(big.Int).Sub(median(l[:11]), median(l[60:71]))
	span.Add(span, big.NewInt(3*3600))
	if span.Sign() > 0 {
		span.Div(span, big.NewInt(4))
	}
	if span.Cmp(big.NewInt(1800)) < 0 {
		span.SetInt64(1800)
	}
	if span.Cmp(big.NewInt(7200)) > 0 {
		span.SetInt64(7200)
	}
	avg.Mul(avg, big.NewInt(3600))
	avg.Div(avg, span)
	if !avg.IsUint64() {
		panic("difficulty out of range")
	}
	if d := avg.Uint64(); d > 1 {
		return d
	}
	return 1
}
