// Package ref holds the reference models the checks compare against. They are
// written from the documented rules, not from the code under test.
package ref

import (
	"encoding/binary"
	"math/bits"

	"golang.org/x/crypto/blake2b"
)

// SipRound is one round.
func SipRound(v *[4]uint64) { sipround(v) }

func sipround(v *[4]uint64) {
	v[0] += v[1]
	v[2] += v[3]
	v[1] = bits.RotateLeft64(v[1], 13) ^ v[0]
	v[3] = bits.RotateLeft64(v[3], 16) ^ v[2]
	v[0] = bits.RotateLeft64(v[0], 32)
	v[2] += v[1]
	v[0] += v[3]
	v[1] = bits.RotateLeft64(v[1], 17) ^ v[2]
	v[3] = bits.RotateLeft64(v[3], 21) ^ v[0]
	v[2] = bits.RotateLeft64(v[2], 32)
}

func sip(v *[4]uint64, n uint64) {
	v[3] ^= n
	sipround(v)
	sipround(v)
	v[0] ^= n
	v[2] ^= 0xff
	for i := 0; i < 4; i++ {
		sipround(v)
	}
}

// Siphash24 is SipHash-2-4 of one word, with the state keyed directly (Cuckoo).
func Siphash24(key [4]uint64, nonce uint64) uint64 {
	sip(&key, nonce)
	return key[0] ^ key[1] ^ key[2] ^ key[3]
}

// SiphashBlock is the edge of a nonce in its chained block of 64 (Cuckaroo).
func SiphashBlock(key [4]uint64, nonce uint64) uint64 {
	var h [64]uint64
	start := nonce - nonce%64
	for i := range h {
		sip(&key, start+uint64(i))
		h[i] = key[0] ^ key[1] ^ key[2] ^ key[3]
	}
	if nonce%64 == 63 {
		return h[63]
	}
	return h[nonce%64] ^ h[63]
}

// Key is the graph key of a header.
func Key(header []byte) (k [4]uint64) {
	s := blake2b.Sum256(header)
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(s[8*i:])
	}
	return
}

// SimpleCycle tells whether the edges (us[i], vs[i]) of a bipartite graph form
// one simple cycle through all of them.
func SimpleCycle(us, vs []uint64) bool {
	n := len(us)
	if n < 2 {
		return false
	}
	deg := func(xs []uint64, x uint64) (d, other, last int) {
		for i, y := range xs {
			if y == x {
				d++
				other, last = last, i
			}
		}
		return
	}
	for i := range us {
		if d, _, _ := deg(us, us[i]); d != 2 {
			return false
		}
		if d, _, _ := deg(vs, vs[i]); d != 2 {
			return false
		}
	}
	// two edges at every vertex: a union of disjoint cycles; is it one?
	seen := 1
	at, xs := 0, us
	for {
		_, a, b := deg(xs, xs[at])
		if a == at {
			at = b
		} else {
			at = a
		}
		if &xs[0] == &us[0] {
			xs = vs
		} else {
			xs = us
		}
		if at == 0 {
			return seen == n
		}
		seen++
		if seen > n {
			return false
		}
	}
}
