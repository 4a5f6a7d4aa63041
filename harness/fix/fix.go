// Package fix loads the recorded and mined fixtures.
package fix

import (
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/hv"
	"verif/ref"
)

// Header is a mined header with a valid proof of work.
type Header struct {
	Name       string
	Raw        []byte
	H          *ref.Header
	PrevNonces []uint32
	PrevTD     uint64
}

// Headers returns all mined headers by name, checked against the reference.
func Headers() (list []*Header, byName map[string]*Header) {
	b, err := os.ReadFile(filepath.Join(hv.Dir, "fixtures/headers.json"))
	if err != nil {
		panic(err)
	}
	var m map[string]struct {
		Hex        string
		PrevNonces []uint32 `json:"prev_nonces"`
		PrevTD     uint64   `json:"prev_td"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	byName = map[string]*Header{}
	for n, e := range m {
		raw, err := hex.DecodeString(e.Hex)
		if err != nil {
			panic(err)
		}
		h, rest, ok := ref.ParseHeader(raw)
		if !ok {
			continue // beyond the readable range
		}
		if len(rest) != 0 || !h.CycleValid() {
			panic("bad fixture " + n)
		}
		f := &Header{n, raw, h, e.PrevNonces, e.PrevTD}
		list = append(list, f)
		byName[n] = f
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Name < list[j].Name })
	return
}

// Block65927 is the recorded Testnet4 block 65927.
func Block65927() []byte {
	b, err := os.ReadFile(filepath.Join(hv.Dir, "fixtures/block65927.hex"))
	if err != nil {
		panic(err)
	}
	raw, err := hex.DecodeString(strings.TrimSpace(string(b)))
	if err != nil {
		panic(err)
	}
	return raw
}
