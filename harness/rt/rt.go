// Package rt checks that an object survives serialisation.
package rt

import (
	"bytes"
	"fmt"
	"io"
	"testing/iotest"

	"verif/hv"
)

// Codec is a message or consensus object.
type Codec interface {
	Read(r io.Reader) error
	Bytes() []byte
}

// trail follows every encoding; it must be left unread.
var trail = []byte("TRAIL")

// Roundtrip checks one object. eq compares a decoded object with the reference.
func Roundtrip(c *hv.Ctx, kind string, obj func() Codec, fresh func() Codec, eq func(x Codec) error, want []byte) {
	h := hv.Hash64([]byte(kind), want)
	fail := func(what string, err interface{}) {
		c.Violate(kind+"/"+what, fmt.Sprintf("%s: %s: %v", kind, what, err), fmt.Sprintf("%x", cut(want)))
	}
	o := obj()
	var got []byte
	if p := c.Do(func() string { return kind }, func() { got = o.Bytes() }); p != nil {
		fail("writing panics", p)
		return
	}
	c.Case(h, true)
	if !bytes.Equal(got, want) {
		fail("bytes", fmt.Sprintf("got %x, want %x", cut(got), cut(want)))
		return
	}
	if p := c.Do(func() string { return kind }, func() { got = o.Bytes() }); p != nil || !bytes.Equal(got, want) {
		fail("writing twice", p)
		return
	}
	stream := append(append([]byte(nil), want...), trail...)
	for mode := 0; mode < 3; mode++ {
		if len(want) > 100000 && mode > 0 {
			break
		}
		src := bytes.NewReader(stream)
		var r io.Reader = src
		switch mode {
		case 1:
			r = iotest.OneByteReader(src)
		case 2:
			r = &byParts{src, []int{3, 1, 7, 2, 64, 5}, 0}
		}
		x := fresh()
		var err error
		if p := c.Do(func() string { return kind }, func() { err = x.Read(r) }); p != nil {
			fail("reading panics", p)
			return
		}
		if err != nil {
			fail("reading back", err)
			return
		}
		if src.Len() != len(trail) {
			fail("bytes consumed", fmt.Sprintf("%d, want %d", len(stream)-src.Len(), len(want)))
			return
		}
		if err := eq(x); err != nil {
			fail("read back differs", err)
			return
		}
		// and again into the same object
		if mode == 0 {
			err = nil
			p := c.Do(func() string { return kind }, func() { err = x.Read(bytes.NewReader(stream)) })
			if p != nil || err != nil {
				fail("reading into a used object", fmt.Sprint(p, err))
				return
			}
			if err := eq(x); err != nil {
				fail("read into a used object differs", err)
				return
			}
		}
		var again []byte
		if p := c.Do(func() string { return kind }, func() { again = x.Bytes() }); p != nil || !bytes.Equal(again, want) {
			fail("written again", p)
			return
		}
	}
	// at the very end of a stream, with the error reported along with the data
	x := fresh()
	var err error
	if p := c.Do(func() string { return kind }, func() { err = x.Read(iotest.DataErrReader(bytes.NewReader(want))) }); p != nil || err != nil {
		fail("reading at the end of the stream", fmt.Sprint(p, err))
	}
	c.Outcome(kind)
	c.Sample(kind, func() interface{} { return fmt.Sprintf("%x", cut(want)) })
}

// byParts reads in small parts.
type byParts struct {
	r *bytes.Reader
	n []int
	i int
}

func (b *byParts) Read(p []byte) (int, error) {
	n := b.n[b.i%len(b.n)]
	b.i++
	if n < len(p) {
		p = p[:n]
	}
	return b.r.Read(p)
}

func cut(b []byte) []byte {
	if len(b) > 1500 {
		return b[:1500]
	}
	return b
}

