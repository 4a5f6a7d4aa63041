package psim

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"reflect"
	"sort"
	"sync"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"

	"verif/vsched"
	"verif/vsched/vnet"
	"verif/vsched/vsync"
)

// Message types of the protocol.
const (
	TError = iota
	THand
	TShake
	TPing
	TPong
	TGetPeerAddrs
	TPeerAddrs
	TGetHeaders
	THeader
	THeaders
	TGetBlock
	TBlock
	TGetCompactBlock
	TCompactBlock
	TStemTransaction
	TTransaction
)

// Frame is a message on the wire.
func Frame(typ uint8, body []byte) []byte {
	b := append([]byte{0x54, 0x34, typ}, binary.BigEndian.AppendUint64(nil, uint64(len(body)))...)
	return append(b, body...)
}

// Shake is the answer to a handshake.
type Shake struct {
	Version uint32
	Caps    uint32
	TD      uint64
	Agent   string
	Genesis []byte
}

// Good is the right one.
func Good() Shake {
	return Shake{1, 7, 1, "peer", append([]byte(nil), chain.Testnet4.Hash()...)}
}

// Body is the message.
func (s Shake) Body() []byte {
	b := binary.BigEndian.AppendUint32(nil, s.Version)
	b = binary.BigEndian.AppendUint32(b, s.Caps)
	b = binary.BigEndian.AppendUint64(b, s.TD)
	b = binary.BigEndian.AppendUint64(b, uint64(len(s.Agent)))
	return append(append(b, s.Agent...), s.Genesis...)
}

// Frame is the message on the wire.
func (s Shake) Frame() []byte { return Frame(TShake, s.Body()) }

// Ping and Pong are frames.
func Ping(td, height uint64) []byte { return Frame(TPing, two(td, height)) }

// Pong is the answer.
func Pong(td, height uint64) []byte { return Frame(TPong, two(td, height)) }

func two(a, b uint64) []byte {
	return binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint64(nil, a), b)
}

// Hand is the opening of a handshake by another node.
func Hand(nonce uint64) []byte {
	b := binary.BigEndian.AppendUint32(nil, 1)
	b = binary.BigEndian.AppendUint32(b, 7)
	b = binary.BigEndian.AppendUint64(b, 0x1122334455667788+nonce)
	b = binary.BigEndian.AppendUint64(b, 1)
	for i := 0; i < 2; i++ {
		b = append(b, 0, 10, 1, 0, 1, 0x0d, 0x56)
	}
	b = append(binary.BigEndian.AppendUint64(b, 4), "peer"...)
	return Frame(THand, append(b, chain.Testnet4.Hash()...))
}

// Addrs is a list of addresses.
func Addrs(l ...string) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(l)))
	for _, s := range l {
		a, err := net.ResolveTCPAddr("tcp", s)
		if err != nil {
			panic(err)
		}
		if v4 := a.IP.To4(); v4 != nil {
			b = append(append(b, 0), v4...)
		} else {
			b = append(append(b, 1), a.IP.To16()...)
		}
		b = binary.BigEndian.AppendUint16(b, uint16(a.Port))
	}
	return Frame(TPeerAddrs, b)
}

// ParseAddrs reads the body of an address list.
func ParseAddrs(b []byte) (l []string, ok bool) {
	if len(b) < 4 {
		return nil, false
	}
	n := binary.BigEndian.Uint32(b)
	b = b[4:]
	for ; n > 0; n-- {
		k := 4
		if len(b) > 0 && b[0] == 1 {
			k = 16
		}
		if len(b) < 1+k+2 {
			return nil, false
		}
		a := net.TCPAddr{IP: net.IP(b[1 : 1+k]), Port: int(binary.BigEndian.Uint16(b[1+k:]))}
		l = append(l, a.String())
		b = b[1+k+2:]
	}
	return l, len(b) == 0
}

// Msg is a frame that was received.
type Msg struct {
	Type uint8
	Body []byte
}

func (m Msg) String() string { return fmt.Sprintf("type %d (%d bytes)", m.Type, len(m.Body)) }

// Frames splits a stream; rest is an incomplete frame.
func Frames(b []byte) (l []Msg, rest []byte, err error) {
	for len(b) > 0 {
		if len(b) >= 2 && (b[0] != 0x54 || b[1] != 0x34) {
			return l, b, errors.New("the stream is not at a frame")
		}
		if len(b) < 11 {
			return l, b, nil
		}
		n := binary.BigEndian.Uint64(b[3:])
		if n > 20000000 {
			return l, b, errors.New("a frame is too long")
		}
		if uint64(len(b)-11) < n {
			return l, b, nil
		}
		l = append(l, Msg{b[2], b[11 : 11+n]})
		b = b[11+n:]
	}
	return
}

// After gives the messages sent after the hand.
func After(c *vnet.TCPConn) []Msg {
	l, rest, err := Frames(c.Out)
	if err != nil {
		vsched.Fail("frames", "the node wrote no sequence of frames to %s: %v", c.RemoteAddr(), err)
	}
	if len(rest) > 0 && !c.Closed() && !c.Failed {
		vsched.Fail("frames", "the node left a frame to %s incomplete", c.RemoteAddr())
	}
	if len(l) > 0 && l[0].Type == THand {
		return l[1:]
	}
	return l
}

// Of filters messages.
func Of(l []Msg, typ uint8) (out []Msg) {
	for _, m := range l {
		if m.Type == typ {
			out = append(out, m)
		}
	}
	return
}

// GetHeaders asks for headers.
func GetHeaders(hashes ...[]byte) []byte {
	b := []byte{byte(len(hashes))}
	for _, h := range hashes {
		b = append(b, h...)
	}
	return Frame(TGetHeaders, b)
}

// Chain is a blockchain that the harness controls.
type Chain struct {
	vsync.RWMutex
	obj     *vsched.Obj
	height  uint64
	td      uint64
	Seen    []([2]uint64) // the consistent states it had
	Blocks  map[string]*consensus.Block
	Headers func(loc consensus.Locator) []consensus.BlockHeader
	BadHdr  func(h []consensus.BlockHeader) error
	BadBlk  func(b *consensus.Block) error
	// Accept tells what accepting a block does to the chain: true makes it the head
	Top     func(b *consensus.Block) bool
	NBlocks int
	NHdrs   int
}

// NewChain makes one.
func NewChain(height, td uint64) *Chain {
	return &Chain{obj: vsched.NewObj(), height: height, td: td, Seen: [][2]uint64{{height, td}}, Blocks: map[string]*consensus.Block{}}
}

// Genesis is not used by the code under test.
func (c *Chain) Genesis() consensus.Block { return chain.Testnet4 }

// TotalDifficulty as the real chain: the caller locks.
func (c *Chain) TotalDifficulty() consensus.Difficulty {
	vsched.StepOn("chain total difficulty", c.obj, true)
	return consensus.Difficulty(*vsched.RD(&c.td, "the chain's total difficulty", "TotalDifficulty"))
}

// Height as the real chain: the caller locks.
func (c *Chain) Height() uint64 {
	vsched.StepOn("chain height", c.obj, true)
	return *vsched.RD(&c.height, "the chain's height", "Height")
}

// Grow moves the head.
func (c *Chain) Grow(height, td uint64) {
	c.Lock()
	vsched.StepOn("chain grows", c.obj, false)
	*vsched.WR(&c.height, "the chain's height", "the chain") = height
	vsched.StepOn("chain grows", c.obj, false)
	*vsched.WR(&c.td, "the chain's total difficulty", "the chain") = td
	c.Seen = append(c.Seen, [2]uint64{height, td})
	c.Unlock()
}

// GetBlockHeaders answers a request.
func (c *Chain) GetBlockHeaders(loc consensus.Locator) []consensus.BlockHeader {
	c.RLock()
	defer c.RUnlock()
	if c.Headers != nil {
		return c.Headers(loc)
	}
	return nil
}

// GetBlock finds a block.
func (c *Chain) GetBlock(hash consensus.Hash) *consensus.Block {
	return c.Blocks[string(hash)]
}

// ProcessHeaders judges headers.
func (c *Chain) ProcessHeaders(h []consensus.BlockHeader) error {
	c.NHdrs++
	if c.BadHdr != nil {
		return c.BadHdr(h)
	}
	return nil
}

// ProcessBlock judges a block.
func (c *Chain) ProcessBlock(b *consensus.Block) error {
	c.Lock()
	defer c.Unlock()
	c.NBlocks++
	if c.BadBlk != nil {
		if err := c.BadBlk(b); err != nil {
			return err
		}
	}
	if c.Top != nil && c.Top(b) {
		vsched.StepOn("chain grows", c.obj, false)
		*vsched.WR(&c.height, "the chain's height", "ProcessBlock") = b.Header.Height
		*vsched.WR(&c.td, "the chain's total difficulty", "ProcessBlock") = uint64(b.Header.TotalDifficulty)
		c.Seen = append(c.Seen, [2]uint64{c.height, c.td})
	}
	return nil
}

// Pool of transactions.
type Pool struct {
	Err func(t *consensus.Transaction) error
	N   int
}

// ProcessTx judges a transaction.
func (p *Pool) ProcessTx(t *consensus.Transaction) error {
	p.N++
	if p.Err != nil {
		return p.Err(t)
	}
	return nil
}

// Node is the code under test with its surroundings.
type Node struct {
	Net   *vnet.Net
	Chain *Chain
	S     *p2p.Syncer
	Run   *vsched.Thread
	Limit int
	Table int // limit of the table, if it was set
}

// Opt configures a node.
type Opt struct {
	Addrs   []string
	Limit   int // of connections, 0: the one of the code
	Plan    func(addr string, n int) vnet.Plan
	Mempool p2p.Mempool
	Table   int
	Hosts   map[string]string
	Chain   p2p.Blockchain // nil: a model that the harness controls
}

// Greet is the plan of a peer that completes the handshake and then sends.
func Greet(msgs ...[]byte) vnet.Plan {
	return vnet.Plan{In: append([][]byte{Good().Frame()}, msgs...)}
}

// Reset sets other packages to their state at the start.
var Reset func()

// New makes a node; it does not run yet.
func New(o Opt) *Node {
	p2p.VerifReset()
	if Reset != nil {
		Reset()
	}
	n := &Node{Limit: 15}
	if o.Limit > 0 && p2p.VerifSetLimit(o.Limit) {
		n.Limit = o.Limit
	}
	if o.Table > 0 && p2p.VerifSetTable(o.Table) {
		n.Table = o.Table
	}
	n.Net = &vnet.Net{OnDial: o.Plan, Hosts: o.Hosts}
	if o.Plan == nil {
		n.Net.OnDial = func(string, int) vnet.Plan { return Greet() }
	}
	n.Net.Opened = func(c *vnet.TCPConn) {
		open, same := 0, 0
		for _, x := range n.Net.Conns {
			if !x.Closed() {
				open++
				if x.RemoteAddr().String() == c.RemoteAddr().String() {
					same++
				}
			}
		}
		if open > n.Limit {
			vsched.Fail("limit", "%d connections are open, the limit is %d", open, n.Limit)
		}
		if same > 1 {
			vsched.Fail("twice", "there are two connections to %s", c.RemoteAddr())
		}
	}
	vnet.Use(n.Net)
	n.Chain = NewChain(5, 50)
	if o.Chain == nil {
		o.Chain = n.Chain
	}
	n.S = p2p.NewSyncer(o.Addrs, o.Chain, o.Mempool)
	return n
}

// Start runs the pool.
func (n *Node) Start() { n.Run = vsched.Spawn("run", n.S.Run) }

// Conn is the last connection to an address, or nil.
func (n *Node) Conn(addr string) *vnet.TCPConn {
	for i := len(n.Net.Conns) - 1; i >= 0; i-- {
		if c := n.Net.Conns[i]; c.RemoteAddr().String() == addr {
			return c
		}
	}
	return nil
}

// Open is the open connection to an address, or nil.
func (n *Node) Open(addr string) *vnet.TCPConn {
	if c := n.Conn(addr); c != nil && !c.Closed() {
		return c
	}
	return nil
}

// Listed are the addresses the node hands out, sorted.
func (n *Node) Listed(caps uint32) []string {
	p := n.S.Pool.Peers(consensus.Capabilities(caps))
	if p == nil {
		return nil
	}
	l, ok := ParseAddrs(p.Bytes())
	if !ok {
		vsched.Fail("list", "the address list cannot be read")
	}
	sort.Strings(l)
	return l
}

// Has tells whether the list contains s.
func Has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Banned tells whether the pool says so; known is false if it has no such
// method.
func (n *Node) Banned(addr string) (banned, known bool) {
	if p, ok := n.S.Pool.(interface{ IsBan(string) bool }); ok {
		return p.IsBan(addr), true
	}
	return false, false
}

// Member reads a number that the pool knows about a peer; known is false if
// there is no such peer or member.
func (n *Node) Member(addr, name string) (v uint64, known bool) {
	p := n.S.Pool.PeerInfo(addr)
	x := reflect.ValueOf(p)
	if !x.IsValid() || x.Kind() == reflect.Ptr && x.IsNil() {
		return 0, false
	}
	for x.Kind() == reflect.Ptr {
		x = x.Elem()
	}
	if x.Kind() != reflect.Struct {
		return 0, false
	}
	f := x.FieldByName(name)
	switch {
	case !f.IsValid():
		return 0, false
	case f.CanInt():
		return uint64(f.Int()), true
	case f.CanUint():
		return f.Uint(), true
	}
	return 0, false
}

// Peer is the connection of a peer that the pool has, if any.
func (n *Node) Peer(addr string) *p2p.Peer {
	var p interface{} = n.S.Pool.PeerInfo(addr)
	l, ok := p.(sync.Locker)
	x := reflect.ValueOf(p)
	if !ok || x.Kind() != reflect.Ptr || x.IsNil() || x.Elem().Kind() != reflect.Struct {
		return nil
	}
	f := x.Elem().FieldByName("Peer")
	if !f.IsValid() || !f.CanInterface() {
		return nil
	}
	l.Lock()
	c, _ := f.Interface().(*p2p.Peer)
	l.Unlock()
	return c
}

// Known tells whether the peer is in the table.
func (n *Node) Known(addr string) bool {
	x := reflect.ValueOf(n.S.Pool.PeerInfo(addr))
	return x.IsValid() && !(x.Kind() == reflect.Ptr && x.IsNil())
}

// Connected are the addresses of the pool's list of connected peers; known is
// false if there is no such list.
func (n *Node) Connected() (l []string, known bool) {
	x := reflect.ValueOf(n.S.Pool)
	for x.Kind() == reflect.Ptr {
		x = x.Elem()
	}
	if x.Kind() != reflect.Struct {
		return nil, false
	}
	f := x.FieldByName("ConnectedPeers")
	if !f.IsValid() || f.Kind() != reflect.Map || f.Type().Key().Kind() != reflect.String {
		return nil, false
	}
	for _, k := range f.MapKeys() {
		l = append(l, k.String())
	}
	sort.Strings(l)
	return l, true
}

// Until lets things happen until cond holds, at most d.
func Until(d int64, cond func() bool) bool {
	end := vsched.Now() + d
	for !cond() && vsched.Now() < end {
		before := vsched.Now()
		vsched.Settle(vsched.Second)
		if vsched.Now() == before { // nothing can happen any more
			break
		}
	}
	return cond()
}

// Finish stops the node and checks that everything ends.
func (n *Node) Finish() {
	n.S.Stop()
	n.Ended()
}

// Ended checks that everything ends after a stop request.
func (n *Node) Ended() {
	vsched.Settle(1000 * vsched.Second)
	if n.Run != nil && !n.Run.Done() {
		vsched.Fail("stop", "the run loop does not end after the stop: %s", n.Run.Waiting())
	}
	for _, c := range n.Net.Conns {
		if !c.Closed() {
			vsched.Fail("stop open", "the connection to %s is not closed after the stop", c.RemoteAddr())
		}
	}
	if l := vsched.Live(); len(l) > 0 {
		vsched.Fail("stop leak", "goroutines do not end after the stop: %v", l)
	}
}
