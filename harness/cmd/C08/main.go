// C08: message framing keeps both ends of a stream in step.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"verif/hv"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
)

var c *hv.Ctx

func main() {
	hv.Main("C08", "exploration", "reading: every magic, every pair of received and expected type, every boundary length; every sequence of up to three frames with bodies of up to three bytes, each consumed partly, exactly or greedily, under every way to cut the stream into chunks (all compositions up to 2^18) and every truncation point; larger bodies around the buffer sizes and at the limit under structured chunkings. Writing: bodies of every size around the buffer sizes and up to the limit, to writers that fail at every byte, after a partial write or none. Non-trivial: the stream has a frame.", run)
}

// probe is a message that consumes a given number of bytes of its body.
type probe struct {
	typ  uint8
	body []byte
	want int // bytes to read, -1: all there are
	got  []byte
	ask  int // size of each Read
	over bool
}

func (p *probe) Type() uint8   { return p.typ }
func (p *probe) Bytes() []byte { return p.body }
func (p *probe) Read(r io.Reader) error {
	if p.want < 0 {
		b, err := io.ReadAll(r)
		p.got = b
		return err
	}
	p.got = make([]byte, p.want)
	_, err := io.ReadFull(r, p.got)
	return err
}

func frame(typ byte, n uint64, body []byte) []byte {
	b := []byte{0x54, 0x34, typ}
	b = binary.BigEndian.AppendUint64(b, n)
	return append(b, body...)
}

// chunks delivers a stream in parts, then an error.
type chunks struct {
	b     []byte
	pos   int
	cut   func(pos int) int // next cut after pos
	final error
	data  bool // error together with the last data
}

func (s *chunks) Read(p []byte) (int, error) {
	if s.pos == len(s.b) {
		return 0, s.final
	}
	end := s.cut(s.pos)
	if end > len(s.b) {
		end = len(s.b)
	}
	n := copy(p, s.b[s.pos:end])
	s.pos += n
	if s.data && s.pos == len(s.b) {
		return n, s.final
	}
	return n, nil
}

func byMask(mask uint64) func(int) int {
	return func(pos int) int {
		for i := pos + 1; ; i++ {
			if i >= 64 || mask>>uint(i-1)&1 != 0 {
				if i >= 64 {
					return 1 << 60
				}
				return i
			}
		}
	}
}

func every(n int) func(int) int { return func(pos int) int { return pos + n - pos%n } }

// read reads one message; the stream stands at the next frame afterwards.
func read(key string, s io.Reader, m *probe, wantBody []byte, ok bool, declared uint64) bool {
	var n uint64
	var err error
	p := hv.Try(func() { n, err = p2p.ReadMessage(s, m) })
	switch {
	case p != nil:
		c.Violate("read/panic", key+": "+fmt.Sprint(p), key)
	case ok && err != nil:
		c.Violate("read/rejected", key+": a valid frame is rejected: "+err.Error(), key)
	case !ok && err == nil:
		c.Violate("read/accepted", key+": accepted", key)
	case ok && n != 11+declared:
		c.Violate("read/count", fmt.Sprintf("%s: reports %d bytes, the frame has %d", key, n, 11+declared), key)
	case ok && !bytes.Equal(m.got, wantBody):
		c.Violate("read/body", fmt.Sprintf("%s: the message saw %.100x, want %.100x", key, m.got, wantBody), key)
	default:
		return true
	}
	return false
}

type fr struct{ n, take int } // body length, bytes the message reads (-1 all)

func run(ctx *hv.Ctx) {
	c = ctx
	// magic
	body := []byte{1, 2, 3}
	c.Par(256, func(a int) {
		for b := 0; b < 256; b++ {
			f := frame(7, 3, body)
			f[0], f[1] = byte(a), byte(b)
			ok := a == 0x54 && b == 0x34
			read(fmt.Sprintf("magic %02x%02x", a, b), bytes.NewReader(f), &probe{typ: 7, want: 3}, body, ok, 3)
			c.Case(uint64(a<<8|b)|1<<40, true)
			var h p2p.Header
			if err := h.Read(bytes.NewReader(f)); (err == nil) != ok {
				c.Violate("magic/header", fmt.Sprintf("magic %02x%02x: header accepted=%v", a, b, err == nil), f)
			} else if ok && (h.Type != 7 || h.Len != 3 || !bytes.Equal(h.Bytes(), f[:11])) {
				c.Violate("magic/header", fmt.Sprintf("header %x read as type %d length %d, written %x", f, h.Type, h.Len, h.Bytes()), f)
			}
			// types
			f = frame(byte(a), 3, body)
			read(fmt.Sprintf("type %d expected %d", a, b), bytes.NewReader(f), &probe{typ: byte(b), want: 3}, body, a == b, 3)
			c.Case(uint64(a<<8|b)|2<<40, true)
		}
	})
	c.Outcome("magic and types")

	// lengths, on streams that have more than enough bytes
	const max = 20000000
	var lens []uint64
	for _, b := range []uint64{0, 3, 255, 256, 4096, 65535, 65536, 1 << 20, max, max * 2, 1 << 24, 1 << 31, 1 << 32, 1<<32 + max, 1 << 48, 1 << 62, 1 << 63} {
		for d := uint64(0); d < 7; d++ {
			lens = append(lens, b+d-3)
		}
	}
	tail := make([]byte, max+100)
	for i := range tail {
		tail[i] = byte(i * 7)
	}
	c.Par(len(lens), func(i int) {
		n := lens[i]
		for _, take := range []int{0, 3, -1} {
			if take > 0 && n < 3 {
				continue
			}
			key := fmt.Sprintf("length %d take %d", n, take)
			s := &chunks{b: append(frame(9, n, nil), tail...), cut: every(1 << 16), final: io.EOF}
			ok := n <= max
			var want []byte
			if ok {
				want = tail[:n]
				if take >= 0 {
					want = tail[:take]
				}
			}
			m := &probe{typ: 9, want: take}
			if read(key, s, m, want, ok, n) && ok && s.pos != 11+int(n) {
				c.Violate("read/position", fmt.Sprintf("%s: the stream stands at %d, want %d", key, s.pos, 11+n), key)
			}
			if !ok && len(m.got) > 0 {
				c.Violate("read/oversized", key+": the message of an oversized frame was given its bytes", key)
			}
			c.Case(hv.Hash64([]byte(key)), true)
		}
	})
	c.Outcome("lengths")

	// sequences of frames, all chunkings, all truncations
	var shapes []fr
	for n := 0; n <= 3; n++ {
		shapes = append(shapes, fr{n, -1})
		for t := 0; t <= n+1; t++ {
			shapes = append(shapes, fr{n, t})
		}
	}
	var seqs [][]fr
	for _, a := range shapes {
		seqs = append(seqs, []fr{a})
		for _, b := range shapes {
			seqs = append(seqs, []fr{a, b})
			if a.n <= 2 && b.n <= 2 || c.Thorough {
				for _, d := range shapes {
					if d.n < 2 || c.Thorough {
						seqs = append(seqs, []fr{a, b, d})
					}
				}
			}
		}
	}
	c.Par(len(seqs), func(i int) {
		seq := seqs[i]
		var stream []byte
		for j, f := range seq {
			b := []byte{byte(16*j + 1), byte(16*j + 2), byte(16*j + 3)}[:f.n]
			stream = append(stream, frame(byte(j+3), uint64(f.n), b)...)
		}
		play := func(kind string, cut func(int) int, upto int, final error, data bool) bool {
			s := &chunks{b: stream[:upto], cut: cut, final: final, data: data}
			at := 0
			for j, f := range seq {
				key := fmt.Sprintf("%v frame %d %s stream of %d", seq, j, kind, upto)
				b := stream[at+11 : at+11+f.n]
				take := f.take
				want := b
				ok := true
				switch {
				case take > f.n: // the message wants more than the frame has
					ok = false
				case take >= 0:
					want = b[:take]
				}
				whole := upto >= at+11+f.n
				if !whole {
					ok = false
				}
				m := &probe{typ: byte(j + 3), want: take}
				if take < f.n && upto >= at+11 && (!whole || data && upto == at+11+f.n && final != io.EOF) && (take < 0 || upto >= at+11+take) {
					// only bytes that nobody waits for are missing, or the connection broke with the last of them: both is fine
					hv.Try(func() { p2p.ReadMessage(s, m) })
					return true
				}
				if !read(key, s, m, want, ok, uint64(f.n)) {
					return false
				}
				if !ok {
					if len(m.got) > f.n && !bytes.Equal(m.got[f.n:], make([]byte, len(m.got)-f.n)) {
						c.Violate("read/beyond", key+": a message was given bytes of the next frame", key)
						return false
					}
					return true
				}
				at += 11 + f.n
				if s.pos != at {
					c.Violate("read/position", fmt.Sprintf("%s: the stream stands at %d, the next frame begins at %d", key, s.pos, at), key)
					return false
				}
			}
			return true
		}
		full := len(stream)
		other := errors.New("reset")
		// chunkings: all of the first 17 bytes, and structured ones of longer streams
		bits := full - 1
		if len(seq) == 1 {
			if bits > 13 {
				bits = 13
			}
			for m := uint64(0); m < 1<<uint(bits); m++ {
				if !play(fmt.Sprintf("cuts %x", m), byMask(m|^uint64(0)<<uint(bits)), full, io.EOF, m&1 == 0) {
					return
				}
				c.Case(uint64(i)<<32|m|1<<62, true)
			}
		} else {
			// all cuts at up to two places, and regular ones
			for x := 1; x <= full; x++ {
				for y := x; y <= full; y++ {
					if !c.Thorough && len(seq) == 3 && (y-x)%3 != 0 {
						continue
					}
					k := func(pos int) int {
						if pos < x {
							return x
						}
						if pos < y {
							return y
						}
						return 1 << 30
					}
					if !play(fmt.Sprintf("cuts %d %d", x, y), k, full, io.EOF, x&1 == 0) {
						return
					}
					c.Case(uint64(i)<<32|uint64(x<<16|y)|2<<60, true)
				}
				if !play(fmt.Sprintf("parts of %d", x), every(x), full, io.EOF, true) {
					return
				}
			}
		}
		for cutAt := 0; cutAt < full; cutAt++ {
			for _, e := range []error{io.EOF, other, io.ErrUnexpectedEOF} {
				for _, data := range []bool{false, true} {
					if !play(fmt.Sprintf("ended by %v", e), every(5), cutAt, e, data) {
						return
					}
				}
			}
			c.Case(uint64(i)<<32|uint64(cutAt)|3<<60, true)
		}
	})
	c.Set("frame_sequences", len(seqs))
	if c.Stopped() {
		return
	}

	// larger bodies and writing
	var sizes []int
	for _, b := range []int{0, 100, 256, 512, 1024, 2048, 4085, 4096, 8192, 32768, 65536, 1 << 20, max} {
		for d := -12; d <= 12; d++ {
			if b+d >= 0 && b+d <= max && (b < max || d == 0) {
				sizes = append(sizes, b+d)
			}
		}
	}
	c.Par(len(sizes), func(i int) {
		n := sizes[i]
		b := tail[:n]
		typ := uint8(i)
		want := frame(typ, uint64(n), b)
		var w bytes.Buffer
		k, err := p2p.WriteMessage(&w, &probe{typ: typ, body: b})
		c.Case(uint64(n)|1<<50, true)
		if err != nil || !bytes.Equal(w.Bytes(), want) {
			c.Violate("write/bytes", fmt.Sprintf("body of %d bytes is framed as %.40x... (%d bytes, error %v)", n, w.Bytes(), w.Len(), err), n)
			return
		}
		if k != uint64(len(want)) {
			c.Violate("write/count", fmt.Sprintf("body of %d bytes: reports %d, wrote %d", n, k, len(want)), n)
		}
		stream := append(append([]byte(nil), want...), want...)
		for _, part := range []int{1, 2, 7, 11, 12, 512, 4095, 4096, 4097, 65536, 1 << 30} {
			if part < 64 && n > 100000 && !c.Thorough {
				continue
			}
			for _, take := range []int{-1, 0, n / 2, n} {
				s := &chunks{b: stream, cut: every(part), final: io.EOF}
				body := b
				if take >= 0 {
					body = b[:take]
				}
				for r := 1; r <= 2; r++ {
					key := fmt.Sprintf("body %d parts %d take %d, %d", n, part, take, r)
					if !read(key, s, &probe{typ: typ, want: take}, body, true, uint64(n)) {
						return
					}
					if s.pos != r*len(want) {
						c.Violate("read/position", fmt.Sprintf("%s: the stream stands at %d, want %d", key, s.pos, r*len(want)), key)
						return
					}
				}
				c.Case(uint64(n)<<20|uint64(part)|3<<50, true)
			}
		}
		// failing writers
		total := len(want)
		for at := 0; at <= total; at++ {
			if total > 300 && at > 30 && at < total-30 && at%509 != 0 && (at+5)%4096 > 10 {
				continue
			}
			if n > 100000 && at > 0 && at < total-1 && at%(1<<19) != 0 {
				continue
			}
			for _, mode := range []int{0, 1} {
				fw := &failing{at: at, mode: mode}
				_, err := p2p.WriteMessage(fw, &probe{typ: typ, body: b})
				c.Case(uint64(n)<<24|uint64(at)<<2|uint64(mode)|1<<61, true)
				fails := at < total
				if fails && err == nil {
					c.Violate("write/error lost", fmt.Sprintf("body of %d bytes: the writer failed at byte %d (mode %d) and WriteMessage reports success", n, at, mode), []int{n, at, mode})
					return
				}
				if !fails && err != nil {
					c.Violate("write/error", fmt.Sprintf("body of %d bytes: WriteMessage fails: %v", n, err), n)
					return
				}
				if !bytes.HasPrefix(want, fw.b) {
					c.Violate("write/prefix", fmt.Sprintf("body of %d bytes, failure at %d: what was written is no prefix of the frame", n, at), []int{n, at, mode})
					return
				}
			}
		}
	})
	c.Outcome("sizes")

	// real messages share a stream
	var w bytes.Buffer
	var ends []int
	for i := 0; i < 40; i++ {
		var m p2p.Message
		switch i % 4 {
		case 0:
			m = &p2p.Ping{Height: uint64(i)}
		case 1:
			m = &p2p.PeerError{Code: uint32(i), Message: string(tail[:i*300])}
		case 2:
			m = &p2p.GetBlock{Hash: tail[:32]}
		case 3:
			m = &p2p.GetBlockHeaders{Locator: consensus.Locator{Hashes: []consensus.Hash{tail[:32]}}}
		}
		if _, err := p2p.WriteMessage(&w, m); err != nil {
			c.Violate("mixed/write", err.Error(), i)
		}
		ends = append(ends, w.Len())
	}
	for part := 1; part < 400; part++ {
		s := &chunks{b: w.Bytes(), cut: every(part), final: io.EOF}
		for i := 0; i < 40; i++ {
			m := []p2p.Message{new(p2p.Ping), new(p2p.PeerError), new(p2p.GetBlock), new(p2p.GetBlockHeaders)}[i%4]
			_, err := p2p.ReadMessage(s, m)
			if err != nil || s.pos != ends[i] {
				c.Violate("mixed/read", fmt.Sprintf("message %d in parts of %d: %v, stream at %d, want %d", i, part, err, s.pos, ends[i]), part)
				return
			}
		}
		c.Case(uint64(part)|5<<50, true)
	}
	c.Sample("frame", func() interface{} { return fmt.Sprintf("%x", frame(7, 3, body)) })
	c.Sample("sequence", func() interface{} { return fmt.Sprint(seqs[len(seqs)-1]) })
}

// failing takes at bytes.
type failing struct {
	at, mode int
	b        []byte
}

func (f *failing) Write(p []byte) (int, error) {
	room := f.at - len(f.b)
	if room >= len(p) {
		f.b = append(f.b, p...)
		return len(p), nil
	}
	switch f.mode {
	case 0: // partial write, then an error
		f.b = append(f.b, p[:room]...)
		return room, errors.New("reset")
	default: // nothing of the chunk
		return 0, errors.New("reset")
	}
}
