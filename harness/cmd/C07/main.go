// C07: no received bytes can crash or exhaust the decoders.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"runtime/metrics"
	"sort"
	"sync"
	"syscall"
	"time"

	"verif/fix"
	"verif/hv"
	"verif/ref"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/secp256k1zkp"
)

var c *hv.Ctx

func main() {
	hv.Main("C07", "exploration", "for a valid encoding of every message, consensus object and handshake: every proper prefix, every value of every byte (of the small ones; bit flips and extremes of the large ones), every 2-, 4- and 8-byte window replaced by each boundary value, every window removed or doubled; every byte string up to two bytes and every string up to six over an alphabet of extremes, for every decoder; every list count and length at and beyond its limit on an unending stream of valid elements; every address kind, protocol version and order of a transaction's lists. The outcome must be an object or an error, without panic or process end, within 1 GiB of allocation, and an error for every prefix and every value beyond a limit. Non-trivial: the input differs from a valid encoding in one place.", run)
}

type decoder struct {
	kind  string
	read  func(r io.Reader) error
	valid [][]byte // encodings that must be accepted
	slow  bool     // points to decompress
	conn  bool     // opens a connection per case
}

type reader interface{ Read(r io.Reader) error }

func of(f func() reader) func(io.Reader) error {
	return func(r io.Reader) error { return f().Read(r) }
}

// conn is the remote side of a handshake that sends given bytes.
type conn struct{ r io.Reader }

var errSink = errors.New("closed")

func (c conn) Read(p []byte) (int, error)         { return c.r.Read(p) }
func (c conn) Write(p []byte) (int, error)        { return len(p), nil }
func (c conn) Close() error                       { return nil }
func (c conn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c conn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c conn) SetDeadline(t time.Time) error      { return nil }
func (c conn) SetReadDeadline(t time.Time) error  { return nil }
func (c conn) SetWriteDeadline(t time.Time) error { return nil }

func be(vs ...interface{}) []byte {
	var w bytes.Buffer
	for _, v := range vs {
		switch v := v.(type) {
		case []byte:
			w.Write(v)
		case string:
			w.WriteString(v)
		default:
			if err := binary.Write(&w, binary.BigEndian, v); err != nil {
				panic(err)
			}
		}
	}
	return w.Bytes()
}

func frame(typ byte, body []byte) []byte {
	return append(be([]byte{0x54, 0x34}, typ, uint64(len(body))), body...)
}

// listener answers each connection with the bytes of the case.
type server struct {
	l    net.Listener
	addr string
	next chan []byte
}

func newServer() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{l, l.Addr().String(), make(chan []byte, 1)}
	go func() {
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			b := <-s.next
			k.(*net.TCPConn).SetLinger(0)
			buf := make([]byte, 4096)
			k.Read(buf)
			k.Write(b)
			k.(*net.TCPConn).CloseWrite()
			// until the other side is done
			for {
				if _, err := k.Read(buf); err != nil {
					break
				}
			}
			k.Close()
		}
	}()
	return s
}

var servers = sync.Pool{New: func() interface{} { return newServer() }}

// dial runs the connecting side of the handshake against the bytes of r.
func dial(r io.Reader) error {
	b, _ := io.ReadAll(r)
	s := servers.Get().(*server)
	defer servers.Put(s)
	s.next <- b
	p, err := p2p.NewPeer(nil, s.addr)
	if err == nil {
		p.Close()
	}
	return err
}

// allocation of the whole process, in bytes.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

const allowed = 1 << 30

var (
	again   []func()
	againMu sync.Mutex
)

// decode runs one case.
func decode(d *decoder, what string, src func() io.Reader, reject bool) {
	key := d.kind + "/" + what
	c.Case(hv.Hash64([]byte(key)), true)
	var err error
	before := allocated()
	p := c.Do(func() string { return key }, func() { err = d.read(src()) })
	used := allocated() - before
	replay := func() interface{} {
		b, _ := io.ReadAll(io.LimitReader(src(), 1500))
		return map[string]string{"decoder": d.kind, "case": what, "bytes": fmt.Sprintf("%x", b)}
	}
	switch {
	case p != nil:
		c.Violate(d.kind+"/panic", fmt.Sprintf("%s: decoding panics: %v", key, p), replay())
		return
	case reject && err == nil:
		c.Violate(d.kind+"/accepted", fmt.Sprintf("%s: accepted", key), replay())
		return
	}
	if used > allowed {
		// other cases ran at the same time: measure it alone later
		againMu.Lock()
		if len(again) < 200 {
			again = append(again, func() {
				before := allocated()
				c.Do(func() string { return key }, func() { d.read(src()) })
				if used := allocated() - before; used > allowed {
					c.Violate(d.kind+"/memory", fmt.Sprintf("%s: decoding allocates %d MB", key, used>>20), replay())
				}
			})
		}
		againMu.Unlock()
	}
	if err == nil {
		c.Outcome(d.kind + " accepted")
	} else {
		c.Outcome(d.kind + " rejected")
	}
	c.Sample(d.kind+fmt.Sprint(err == nil), replay)
}

func bytesOf(b []byte) func() io.Reader { return func() io.Reader { return bytes.NewReader(b) } }

// endless repeats an element after a start.
type endless struct {
	start, elem []byte
	n           int // bytes delivered
}

func (e *endless) Read(p []byte) (int, error) {
	i := 0
	for i < len(p) {
		var k int
		if e.n < len(e.start) {
			k = copy(p[i:], e.start[e.n:])
		} else {
			k = copy(p[i:], e.elem[(e.n-len(e.start))%len(e.elem):])
		}
		i += k
		e.n += k
	}
	return i, nil
}

func run(ctx *hv.Ctx) {
	c = ctx
	lim := uint64(24 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})

	rec := ref.ParseBlock(fix.Block65927())
	head := rec.Head.Bytes()
	hdr := func(bits uint8) []byte {
		h := *rec.Head
		h.EdgeBits = bits
		h.Nonces = make([]uint32, 42)
		for i := range h.Nonces {
			h.Nonces[i] = uint32(i) & (1<<bits - 1)
		}
		return h.Bytes()
	}
	out := rec.Outputs[0]
	ins := []ref.Input{{Features: 0}, {Features: 1}, {Features: 0}}
	for i := range ins {
		ins[i].Commit[0], ins[i].Commit[5] = 8+byte(i%2), byte(i)
	}
	sort.Slice(ins, func(i, j int) bool { return bytes.Compare(ins[i].Hash(), ins[j].Hash()) < 0 })
	outs := append([]ref.Output{}, rec.Outputs...)
	for len(outs) < 3 {
		o := outs[0]
		o.Features = byte(len(outs) + 1)
		outs = append(outs, o)
	}
	outs = outs[:3]
	sort.Slice(outs, func(i, j int) bool { return bytes.Compare(outs[i].Hash(), outs[j].Hash()) < 0 })
	kers := []ref.Kernel{rec.Kernels[0], rec.Kernels[0], rec.Kernels[0]}
	for i := range kers {
		kers[i].Fee = uint64(i) + 1
	}
	sort.Slice(kers, func(i, j int) bool { return bytes.Compare(kers[i].Hash(), kers[j].Hash()) < 0 })
	// the point of each list that a reader sees first: header|counts|elements
	block := func(i, o, k int) []byte {
		b := &ref.Block{Head: rec.Head, Inputs: ins[:i], Outputs: outs[:o], Kernels: kers[:k]}
		return b.Bytes()
	}
	tx := func(in []ref.Input, out []ref.Output, ker []ref.Kernel) []byte {
		b := &ref.Block{Inputs: in, Outputs: out, Kernels: ker}
		return be(make([]byte, 32), uint64(len(in)), uint64(len(out)), uint64(len(ker)), b.Body())
	}
	compact := func(o, k, id int) []byte {
		b := &ref.Block{Outputs: outs[:o], Kernels: kers[:k]}
		return be(head, uint8(o), uint8(k), uint64(id), b.Body(), make([]byte, 6*id))
	}
	v4, v6 := be(uint8(0), []byte{1, 2, 3, 4}, uint16(13414)), be(uint8(1), bytes.Repeat([]byte{0x20, 1}, 8), uint16(13414))
	gen := []byte(chain.Testnet4.Hash())
	hand := be(uint32(1), uint32(7), uint64(0x1234), uint64(9), v4, v6, uint64(5), "grin!", gen)
	shake := be(uint32(1), uint32(7), uint64(9), uint64(5), "grin!", gen)

	decoders := []*decoder{
		{kind: "p2p header", read: of(func() reader { return new(p2p.Header) }), valid: [][]byte{frame(3, nil)}},
		{kind: "ping", read: of(func() reader { return new(p2p.Ping) }), valid: [][]byte{be(uint64(5), uint64(6))}},
		{kind: "pong", read: of(func() reader { return new(p2p.Pong) }), valid: [][]byte{be(uint64(5), uint64(6))}},
		{kind: "address request", read: of(func() reader { return new(p2p.GetPeerAddrs) }), valid: [][]byte{be(uint32(7))}},
		{kind: "addresses", read: of(func() reader { return new(p2p.PeerAddrs) }), valid: [][]byte{be(uint32(0)), be(uint32(1), v4), be(uint32(3), v4, v6, v4)}},
		{kind: "error", read: of(func() reader { return new(p2p.PeerError) }), valid: [][]byte{be(uint32(100), uint64(0)), be(uint32(100), uint64(5), "hello")}},
		{kind: "block request", read: of(func() reader { return new(p2p.GetBlock) }), valid: [][]byte{gen}},
		{kind: "header request", read: of(func() reader { return new(p2p.GetBlockHeaders) }), valid: [][]byte{{0}, be(uint8(1), gen), be(uint8(14), bytes.Repeat(gen, 14))}},
		{kind: "locator", read: of(func() reader { return new(consensus.Locator) }), valid: [][]byte{be(uint8(2), gen, gen)}},
		{kind: "header notification", read: of(func() reader { return new(p2p.BlockHeader) }), valid: [][]byte{head}},
		{kind: "headers", read: of(func() reader { return new(p2p.BlockHeaders) }), valid: [][]byte{be(uint16(0)), be(uint16(2), head, hdr(30))}},
		{kind: "header", read: of(func() reader { return new(consensus.BlockHeader) }), valid: [][]byte{hdr(1), hdr(15), head, hdr(31), hdr(32)}},
		{kind: "proof", read: of(func() reader { return new(consensus.Proof) }), valid: [][]byte{head[ref.PreSize:], hdr(32)[ref.PreSize:], hdr(1)[ref.PreSize:]}},
		{kind: "input", read: of(func() reader { return new(consensus.Input) }), valid: [][]byte{ins[0].Bytes()}},
		{kind: "commitment", read: of(func() reader { k := make(secp256k1zkp.Commitment, 33); return &k }), valid: [][]byte{make([]byte, 33)}},
		{kind: "output", read: of(func() reader { return new(consensus.Output) }), valid: [][]byte{out.Bytes()}, slow: true},
		{kind: "kernel", read: of(func() reader { return new(consensus.TxKernel) }), valid: [][]byte{kers[0].Bytes()}, slow: true},
		{kind: "block", read: of(func() reader { return new(consensus.Block) }), valid: [][]byte{block(0, 0, 0), block(1, 1, 1), block(3, 2, 3)}, slow: true},
		{kind: "compact block", read: of(func() reader { return new(consensus.CompactBlock) }), valid: [][]byte{compact(0, 0, 0), compact(1, 1, 2), compact(0, 2, 3)}, slow: true},
		{kind: "transaction", read: of(func() reader { return new(consensus.Transaction) }), valid: [][]byte{tx(nil, nil, nil), tx(ins[:1], outs[:1], kers[:1]), tx(ins, outs[:2], kers)}, slow: true},
		{kind: "hand", read: func(r io.Reader) error { _, err := p2p.AcceptNewPeer(conn{r}); return err }, valid: [][]byte{frame(1, hand)}},
		{kind: "shake", read: dial, valid: [][]byte{frame(2, shake)}, conn: true},
		{kind: "framed addresses", read: func(r io.Reader) error { _, err := p2p.ReadMessage(r, new(p2p.PeerAddrs)); return err }, valid: [][]byte{frame(6, be(uint32(2), v6, v4))}},
		{kind: "framed error", read: func(r io.Reader) error { _, err := p2p.ReadMessage(r, new(p2p.PeerError)); return err }, valid: [][]byte{frame(0, be(uint32(1), uint64(3), "abc"))}},
		{kind: "framed transaction", read: func(r io.Reader) error { _, err := p2p.ReadMessage(r, new(consensus.Transaction)); return err }, valid: [][]byte{frame(15, tx(ins[:2], nil, kers[:1]))}, slow: true},
	}
	by := map[string]*decoder{}
	type job func()
	var jobs []job
	add := func(j job) { jobs = append(jobs, j) }
	flush := func() {
		c.Par(len(jobs), func(i int) { jobs[i]() })
		jobs = nil
	}

	for _, d := range decoders {
		d := d
		by[d.kind] = d
		for n, v := range d.valid {
			v, n := v, n
			add(func() {
				var err error
				p := c.Do(func() string { return d.kind }, func() { err = d.read(bytes.NewReader(v)) })
				if p != nil || err != nil {
					c.Violate(d.kind+"/valid", fmt.Sprintf("%s: a valid encoding is not read: %v %v", d.kind, err, p), fmt.Sprintf("%.3000x", v))
				}
				c.Case(hv.Hash64([]byte(d.kind), v), true)
			})
			for i := range v {
				i := i
				add(func() { decode(d, fmt.Sprintf("%d cut to %d", n, i), bytesOf(v[:i]), true) })
			}
			// byte values
			for i := range v {
				i := i
				few := d.slow || d.conn || len(v) > 600
				if few && c.Thorough && !d.conn {
					few = len(v) > 4000
				}
				add(func() {
					for x := 0; x < 256; x++ {
						bit := byte(x) ^ v[i]
						if byte(x) == v[i] || few && bit&(bit-1) != 0 && x != 0 && x != 255 {
							continue
						}
						m := append([]byte(nil), v...)
						m[i] = byte(x)
						decode(d, fmt.Sprintf("%d byte %d=%d", n, i, x), bytesOf(m), false)
					}
				})
			}
			// windows
			for i := range v {
				i := i
				add(func() {
					for _, w := range []int{8, 4, 2} {
						if i+w > len(v) {
							continue
						}
						for vi, x := range []uint64{1<<64 - 1, 1 << 63, 1<<63 - 1, 1 << 62, 1 << 48, 1 << 40, 1<<32 - 1, 1 << 32, 1 << 31, 1 << 30, 200000001, 20000001, 20000000, 1000001, 1000000, 65536, 65535, 5135, 5134, 513, 257, 15} {
							if w < 8 && x>>uint(8*w) != 0 {
								continue
							}
							if (d.slow || d.conn) && !c.Thorough && (w < 8 || len(v) > 3000 && vi%3 != 0) {
								continue
							}
							m := append([]byte(nil), v...)
							for b := 0; b < w; b++ {
								m[i+b] = byte(x >> uint(8*(w-1-b)))
							}
							decode(d, fmt.Sprintf("%d window %d/%d=%d", n, i, w, x), bytesOf(m), false)
						}
					}
					// a part removed, a part twice
					for _, w := range []int{1, 2, 4, 8, 32} {
						if i+w > len(v) || (d.slow || d.conn) && w != 1 && w != 8 {
							continue
						}
						decode(d, fmt.Sprintf("%d without %d/%d", n, i, w), bytesOf(append(append([]byte(nil), v[:i]...), v[i+w:]...)), false)
						decode(d, fmt.Sprintf("%d twice %d/%d", n, i, w), bytesOf(append(append([]byte(nil), v[:i+w]...), v[i:]...)), false)
					}
				})
			}
		}
		// all short strings
		if !d.conn {
			add(func() { decode(d, "empty", bytesOf(nil), true) })
			for x := 0; x < 256; x++ {
				x := x
				add(func() {
					decode(d, fmt.Sprintf("string %02x", x), bytesOf([]byte{byte(x)}), false)
					for y := 0; y < 256; y++ {
						decode(d, fmt.Sprintf("string %02x%02x", x, y), bytesOf([]byte{byte(x), byte(y)}), false)
					}
				})
			}
			alpha := []byte{0, 1, 2, 8, 0x7f, 0x80, 0xff}
			for a := 0; a < 7*7; a++ {
				a := a
				add(func() {
					for b := 0; b < 7*7*7*7; b++ {
						s := []byte{alpha[a/7], alpha[a%7], alpha[b%7], alpha[b/7%7], alpha[b/49%7], alpha[b/343]}
						// repeated to a long stream, so that counts are followed by elements
						decode(d, fmt.Sprintf("pattern %x", s), bytesOf(bytes.Repeat(s, 60)), false)
						if b%49 == 0 {
							decode(d, fmt.Sprintf("pattern %x zeros", s), bytesOf(append(s, make([]byte, 400)...)), false)
						}
					}
				})
			}
		}
	}
	flush()
	if c.Stopped() {
		return
	}

	// limits, on streams that never end
	limit := func(kind, what string, start, elem []byte) {
		d := by[kind]
		add(func() {
			decode(d, what, func() io.Reader { return io.LimitReader(&endless{start: start, elem: elem}, 400<<20) }, true)
		})
	}
	accept := func(kind, what string, b func() io.Reader) {
		add(func() {
			var err error
			p := c.Do(func() string { return kind + what }, func() { err = by[kind].read(b()) })
			c.Case(hv.Hash64([]byte(kind+what)), true)
			if p != nil || err != nil {
				c.Violate(kind+"/limit", fmt.Sprintf("%s: %s is rejected: %v %v", kind, what, err, p), what)
			}
		})
	}
	big64 := []uint64{1000001, 1000002, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}
	for _, n := range big64 {
		limit("block", fmt.Sprint("inputs ", n), be(head, n, uint64(0), uint64(0)), ins[0].Bytes())
		limit("block", fmt.Sprint("outputs ", n), be(head, uint64(0), n, uint64(0)), outs[0].Bytes())
		limit("block", fmt.Sprint("kernels ", n), be(head, uint64(0), uint64(0), n), kers[0].Bytes())
		limit("transaction", fmt.Sprint("inputs ", n), be(make([]byte, 32), n, uint64(0), uint64(0)), ins[0].Bytes())
		limit("transaction", fmt.Sprint("outputs ", n), be(make([]byte, 32), uint64(0), n, uint64(0)), outs[0].Bytes())
		limit("transaction", fmt.Sprint("kernels ", n), be(make([]byte, 32), uint64(0), uint64(0), n), kers[0].Bytes())
		limit("compact block", fmt.Sprint("ids ", n), be(head, uint8(0), uint8(0), n), []byte{1, 2, 3, 4, 5, 6})
	}
	for n := 15; n < 256; n++ {
		limit("header request", fmt.Sprint("hashes ", n), []byte{byte(n)}, gen)
		limit("locator", fmt.Sprint("hashes ", n), []byte{byte(n)}, gen)
	}
	for n := 513; n < 65536; n++ {
		if n > 1030 && n&(n-1) != 0 && n&(n+1) != 0 && n%4096 != 1 {
			continue
		}
		limit("headers", fmt.Sprint("headers ", n), be(uint16(n)), head)
	}
	for n := uint64(257); n < 1<<32; n += 1 + n/7 {
		limit("addresses", fmt.Sprint("addresses ", n), be(uint32(n)), v4)
	}
	for _, n := range []uint64{257, 258, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		limit("addresses", fmt.Sprint("addresses ", n), be(uint32(n)), v6)
	}
	lens := []uint64{20000001, 20000002, 40000000, 1 << 28, 1 << 31, 1 << 32, 1<<32 + 5, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for _, n := range lens {
		limit("error", fmt.Sprint("length ", n), be(uint32(1), n), []byte{'x'})
		limit("framed error", fmt.Sprint("length ", n), be([]byte{0x54, 0x34, 0}, n, uint32(1), uint64(3), "abc"), []byte{'x'})
		limit("framed addresses", fmt.Sprint("length ", n), be([]byte{0x54, 0x34, 6}, n, uint32(1), v4), []byte{'x'})
		limit("hand", fmt.Sprint("user agent ", n), be([]byte{0x54, 0x34, 1}, uint64(20000000), uint32(1), uint32(7), uint64(4), uint64(9), v4, v4, n), []byte{'x'})
		limit("hand", fmt.Sprint("length ", n), be([]byte{0x54, 0x34, 1}, n, hand), []byte{'x'})
		// bounded by what is sent: the connection ends after it
		d, n := by["shake"], n
		add(func() {
			decode(d, fmt.Sprint("user agent ", n), bytesOf(be([]byte{0x54, 0x34, 2}, uint64(20000000), uint32(1), uint32(7), uint64(9), n, "abc", gen)), true)
			decode(d, fmt.Sprint("length ", n), bytesOf(be([]byte{0x54, 0x34, 2}, n, shake)), true)
		})
	}
	// at the limits
	accept("error", "length 20000000", func() io.Reader {
		return io.LimitReader(&endless{start: be(uint32(1), uint64(20000000)), elem: []byte{'x'}}, 12+20000000)
	})
	accept("addresses", "256", func() io.Reader { return bytes.NewReader(be(uint32(256), bytes.Repeat(v6, 256))) })
	accept("headers", "512", func() io.Reader { return bytes.NewReader(be(uint16(512), bytes.Repeat(head, 512))) })
	accept("header request", "14", func() io.Reader { return bytes.NewReader(be(uint8(14), bytes.Repeat(gen, 14))) })
	accept("block", "1000000 inputs", func() io.Reader {
		return &endless{start: be(head, uint64(1000000), uint64(0), uint64(0)), elem: ins[0].Bytes()}
	})
	accept("compact block", "1000000 ids", func() io.Reader {
		return &endless{start: be(head, uint8(0), uint8(0), uint64(1000000)), elem: []byte{1, 2, 3, 4, 5, 6}}
	})
	if c.Thorough {
		accept("block", "100000 kernels", func() io.Reader {
			return &endless{start: be(head, uint64(0), uint64(0), uint64(100000)), elem: kers[0].Bytes()}
		})
	}
	// proofs: length beyond the limit, or not what the proof takes
	for _, n := range []uint64{0, 1, uint64(len(out.Proof)) - 1, uint64(len(out.Proof)) + 1, 5133, 5134, 5135, 5136, 6000, 65536, 1 << 31, 1 << 32, 1<<32 + uint64(len(out.Proof)), 1 << 63, 1<<64 - 1} {
		limit("output", fmt.Sprint("proof length ", n), be(out.Head(), n, out.Proof), []byte{0})
		limit("output", fmt.Sprint("proof length, repeated ", n), be(out.Head(), n, out.Proof), out.Proof)
	}
	// address kinds, versions, graph sizes
	for k := 2; k < 256; k++ {
		for _, rest := range [][]byte{v4[1:], v6[1:]} {
			limit("addresses", fmt.Sprint("kind ", k, " ", len(rest)), be(uint32(1), uint8(k), rest), []byte{0})
			limit("hand", fmt.Sprint("sender kind ", k, " ", len(rest)), frame(1, be(uint32(1), uint32(7), uint64(1), uint64(9), uint8(k), rest, v4, uint64(1), "g", gen)), []byte{0})
			limit("hand", fmt.Sprint("receiver kind ", k, " ", len(rest)), frame(1, be(uint32(1), uint32(7), uint64(1), uint64(9), v4, uint8(k), rest, uint64(1), "g", gen)), []byte{0})
		}
	}
	for _, v := range []uint32{0, 2, 3, 255, 256, 257, 1 << 16, 1<<16 + 1, 1 << 24, 1<<24 + 1, 1 << 31, 1<<31 + 1, 1<<32 - 1} {
		limit("hand", fmt.Sprint("version ", v), frame(1, be(v, hand[4:])), []byte{0})
		d, v := by["shake"], v
		add(func() { decode(d, fmt.Sprint("version ", v), bytesOf(frame(2, be(v, shake[4:]))), true) })
	}
	for e := 0; e < 256; e++ {
		if e == 0 || e > 32 {
			limit("proof", fmt.Sprint("graph size ", e), []byte{byte(e)}, []byte{0x5a})
			limit("header", fmt.Sprint("graph size ", e), append(append([]byte(nil), head[:ref.PreSize]...), byte(e)), []byte{0x5a})
		}
	}
	// the order of the lists of a transaction
	n := 0
	for _, p := range perms(3) {
		for list := 0; list < 3; list++ {
			i3, o3, k3 := append([]ref.Input{}, ins...), append([]ref.Output{}, outs...), append([]ref.Kernel{}, kers...)
			for x, y := range p {
				switch list {
				case 0:
					i3[x] = ins[y]
				case 1:
					o3[x] = outs[y]
				case 2:
					k3[x] = kers[y]
				}
			}
			sorted := p[0] < p[1] && p[1] < p[2]
			for m := 1; m <= 3; m++ {
				var ok bool
				switch m {
				case 1:
					ok = true
				case 2:
					ok = p[0] < p[1]
				default:
					ok = sorted
				}
				var b []byte
				switch list {
				case 0:
					b = tx(i3[:m], outs, kers)
				case 1:
					b = tx(ins, o3[:m], kers)
				case 2:
					b = tx(ins, outs, k3[:m])
				}
				n++
				what := fmt.Sprintf("list %d order %v of %d", list, p, m)
				if ok {
					accept("transaction", what, bytesOf(b))
				} else {
					d := by["transaction"]
					add(func() { decode(d, what, bytesOf(b), true) })
				}
			}
		}
	}
	// points that are not on the curve, or beyond the field, must not crash
	for x := int64(0); x < 40; x++ {
		for _, base := range []*big.Int{big.NewInt(0), ref.P, ref.N, new(big.Int).Lsh(big.NewInt(1), 255)} {
			for _, pre := range []byte{8, 9, 10, 11, 0, 2, 3, 4, 255} {
				v := new(big.Int).Add(base, big.NewInt(x))
				if v.BitLen() > 256 {
					continue
				}
				b := ref.B32(v)
				k := kers[0].Bytes()
				copy(k[17:], append([]byte{pre}, b[:]...))
				o := out.Bytes()
				copy(o[1:], append([]byte{pre}, b[:]...))
				q := out.Bytes()
				copy(q[34+8+64+1:], b[:])
				add(func() {
					decode(by["kernel"], fmt.Sprint("point ", pre, v), bytesOf(k), false)
					decode(by["output"], fmt.Sprint("point ", pre, v), bytesOf(o), false)
					decode(by["output"], fmt.Sprint("proof point ", pre, v), bytesOf(q), false)
				})
			}
		}
	}
	flush()
	for _, f := range again {
		f()
	}
	c.Set("allocations_measured_alone", len(again))
	c.Set("memory_limit_per_case", allowed)
}

func perms(n int) (out [][]int) {
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, j := range p {
				if i == j {
					continue next
				}
			}
			rec(append(p, i))
		}
	}
	rec(nil)
	return
}
