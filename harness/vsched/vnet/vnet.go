package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	real "net"
	"os"
	"syscall"
	"time"

	"verif/vsched"
)

// Plan is how the remote side of a dialled connection behaves.
type Plan struct {
	Refuse  bool     // the connection is refused
	Hang    bool     // the dial times out after 127 s
	In      [][]byte // what the remote side sends, segment by segment
	EOF     bool     // and then closes
	Drip    int64    // or then sends a zero byte each such time
	Window  int      // bytes the remote side takes without reading, 0: no limit
	OnWrite func(c *TCPConn, b []byte)
	// Faults: every write may fail and every read may be the end, as a decision
	ReadFault, WriteFault bool
	Soft                  bool // a write after a failed one may succeed
}

// Net is the simulated network of a run.
type Net struct {
	// Dial decides what happens to the nth dial (from 0) to an address.
	OnDial func(addr string, n int) Plan
	// Opened is called for every established connection.
	Opened func(c *TCPConn)
	// OnClose is called when the local side closes a connection.
	OnClose func(c *TCPConn)
	Hosts   map[string]string
	Dials   []Attempt
	Conns   []*TCPConn
	obj     *vsched.Obj
	count   map[string]int
	port    int
}

// Attempt to connect.
type Attempt struct {
	Addr string
	At   int64
	OK   bool
	Conn *TCPConn
}

// Use installs a network for the run.
func Use(n *Net) {
	n.obj = vsched.NewObj()
	n.count = map[string]int{}
	n.port = 40000
	vsched.Active().Env = n
}

func cur() *Net {
	if r := vsched.Active(); r != nil {
		if n, ok := r.Env.(*Net); ok {
			return n
		}
	}
	panic("vnet: no network")
}

// TCPConn stands in for net.TCPConn.
type TCPConn struct {
	local, remote *real.TCPAddr
	rd, wr        *vsched.Obj
	in            [][]byte
	eof, reset    bool
	closed        bool
	wclosed       bool
	other         *TCPConn // of a pair
	pending       int      // bytes not yet read by the remote side
	plan          Plan
	dead          bool // a write failed
	rdl, wdl      int64
	rt, wt        []*vsched.Thread

	Out      []byte // everything written
	Writes   []int  // sizes of the writes
	ClosedAt int64
	Failed   bool // a fault was injected
	Reads    int
	over     bool
}

// Over says that nobody may read or write any more.
func (c *TCPConn) Over() {
	vsched.Touch(c.rd)
	vsched.Touch(c.wr)
	c.over = true
}

func (c *TCPConn) use(what string) {
	if c.over {
		vsched.Fail("after the end", "the connection is used (%s) after the wait for its end", what)
	}
}

func (n *Net) newConn(remote *real.TCPAddr, plan Plan) *TCPConn {
	n.port++
	c := &TCPConn{local: &real.TCPAddr{IP: real.IPv4(10, 0, 0, 1), Port: n.port}, remote: remote, plan: plan,
		rd: vsched.NewObj(), wr: vsched.NewObj(), eof: plan.EOF}
	for _, b := range plan.In {
		c.in = append(c.in, append([]byte(nil), b...))
	}
	return c
}

// NewConn is a connection that was accepted from remote.
func NewConn(remote string, plan Plan) *TCPConn {
	a, err := real.ResolveTCPAddr("tcp", remote)
	if err != nil {
		panic(err)
	}
	n := cur()
	c := n.newConn(a, plan)
	n.Conns = append(n.Conns, c)
	return c
}

// Pair connects two ends.
func Pair(a, b string) (*TCPConn, *TCPConn) {
	x, y := NewConn(b, Plan{}), NewConn(a, Plan{})
	x.other, y.other = y, x
	return x, y
}

func opErr(op string, c *TCPConn, err error) error {
	return &real.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

// Read reads.
func (c *TCPConn) Read(b []byte) (int, error) {
	t := vsched.Self()
	c.rt = append(c.rt, t)
	dl, drip := c.rdl, false
	if at := vsched.Now() + c.plan.Drip; c.plan.Drip > 0 && len(c.in) == 0 && (dl == 0 || at < dl) {
		dl, drip = at, true
	}
	to := vsched.Do("read", c.rd, false, func() bool {
		return len(c.in) > 0 || c.eof || c.closed || c.reset || len(b) == 0
	}, dl)
	if drip && to && !c.closed && (c.rdl == 0 || vsched.Now() < c.rdl) {
		to = false
		c.in = append(c.in, []byte{0})
	}
	c.rt = without(c.rt, t)
	c.Reads++
	c.use("read")
	switch {
	case c.closed:
		return 0, opErr("read", c, real.ErrClosed)
	case to || c.rdl != 0 && c.rdl <= vsched.Now():
		return 0, opErr("read", c, os.ErrDeadlineExceeded)
	case c.reset && len(c.in) == 0:
		return 0, opErr("read", c, syscall.ECONNRESET)
	case len(b) == 0:
		return 0, nil
	case c.plan.ReadFault && vsched.Choose("read fault", 2) == 1:
		c.Failed, c.reset, c.in = true, true, nil
		return 0, opErr("read", c, syscall.ECONNRESET)
	case len(c.in) > 0:
		n := copy(b, c.in[0])
		if n == len(c.in[0]) {
			c.in = c.in[1:]
		} else {
			c.in[0] = c.in[0][n:]
		}
		if c.other != nil {
			c.other.pending -= n
		}
		return n, nil
	}
	return 0, io.EOF
}

func without(l []*vsched.Thread, t *vsched.Thread) (out []*vsched.Thread) {
	for _, x := range l {
		if x != t {
			out = append(out, x)
		}
	}
	return
}

// Write writes.
func (c *TCPConn) Write(b []byte) (int, error) {
	t := vsched.Self()
	c.wt = append(c.wt, t)
	to := vsched.Do("write", c.wr, false, func() bool {
		return c.plan.Window == 0 || c.pending+len(b) <= c.plan.Window || c.closed || c.wclosed || c.reset || c.dead
	}, c.wdl)
	c.wt = without(c.wt, t)
	c.use("write")
	switch {
	case c.closed:
		return 0, opErr("write", c, real.ErrClosed)
	case to || c.wdl != 0 && c.wdl <= vsched.Now():
		return 0, opErr("write", c, os.ErrDeadlineExceeded)
	case c.reset || c.dead || c.wclosed:
		return 0, opErr("write", c, syscall.EPIPE)
	case c.plan.WriteFault:
		if k := vsched.Choose("write fault", 3); k > 0 {
			c.Failed, c.dead = true, !c.plan.Soft
			n := 0
			if k == 2 {
				n = len(b) / 2
				c.put(b[:n])
			}
			return n, opErr("write", c, syscall.EPIPE)
		}
	}
	c.put(b)
	return len(b), nil
}

func (c *TCPConn) put(b []byte) {
	c.Out = append(c.Out, b...)
	c.Writes = append(c.Writes, len(b))
	c.pending += len(b)
	if o := c.other; o != nil && !o.closed && len(b) > 0 {
		o.in = append(o.in, append([]byte(nil), b...))
		vsched.Touch(o.rd)
	}
	if c.plan.OnWrite != nil {
		c.plan.OnWrite(c, b)
	}
}

// Close closes.
func (c *TCPConn) Close() error {
	vsched.Do("close conn", c.rd, false, nil, 0)
	vsched.Touch(c.wr)
	if c.closed {
		return opErr("close", c, real.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = vsched.Now()
	if c.other != nil {
		c.other.eof = true
		vsched.Touch(c.other.rd)
	}
	if r := vsched.Active(); r != nil && !vsched.Dead() {
		if n := cur(); n.OnClose != nil {
			n.OnClose(c)
		}
	}
	return nil
}

// CloseWrite closes one direction.
func (c *TCPConn) CloseWrite() error {
	vsched.Do("close write", c.wr, false, nil, 0)
	if c.closed {
		return opErr("close", c, real.ErrClosed)
	}
	if c.wclosed && c.eof {
		return opErr("close", c, syscall.ENOTCONN)
	}
	c.wclosed = true
	if c.other != nil {
		c.other.eof = true
		vsched.Touch(c.other.rd)
	}
	return nil
}

// CloseRead closes one direction.
func (c *TCPConn) CloseRead() error {
	vsched.Do("close read", c.rd, false, nil, 0)
	if c.closed {
		return opErr("close", c, real.ErrClosed)
	}
	c.in, c.eof = nil, true
	return nil
}

// LocalAddr is the address of this side.
func (c *TCPConn) LocalAddr() Addr { return c.local }

// RemoteAddr is the address of the other side.
func (c *TCPConn) RemoteAddr() Addr { return c.remote }

func when(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	if n := t.UnixNano(); n > 0 {
		return n
	}
	return 1
}

// SetDeadline sets both deadlines.
func (c *TCPConn) SetDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c, real.ErrClosed)
	}
	c.rdl, c.wdl = when(t), when(t)
	for _, x := range append(c.rt, c.wt...) {
		x.SetDeadline(when(t))
	}
	return nil
}

// SetReadDeadline sets one.
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c, real.ErrClosed)
	}
	c.rdl = when(t)
	for _, x := range c.rt {
		x.SetDeadline(when(t))
	}
	return nil
}

// SetWriteDeadline sets one.
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c, real.ErrClosed)
	}
	c.wdl = when(t)
	for _, x := range c.wt {
		x.SetDeadline(when(t))
	}
	return nil
}

// SetKeepAlive and the following do nothing here.
func (c *TCPConn) SetKeepAlive(bool) error { return nil }

// SetKeepAlivePeriod does nothing here.
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }

// SetNoDelay does nothing here.
func (c *TCPConn) SetNoDelay(bool) error { return nil }

// SetLinger does nothing here.
func (c *TCPConn) SetLinger(int) error { return nil }

// SetReadBuffer does nothing here.
func (c *TCPConn) SetReadBuffer(int) error { return nil }

// SetWriteBuffer does nothing here.
func (c *TCPConn) SetWriteBuffer(int) error { return nil }

// The remote side, for the harness.

// Feed sends bytes to the local side.
func (c *TCPConn) Feed(b []byte) {
	vsched.StepOn("remote sends", c.rd, false)
	if !c.closed && len(b) > 0 {
		c.in = append(c.in, append([]byte(nil), b...))
	}
}

// FeedNow does so without being a step of its own (from OnWrite).
func (c *TCPConn) FeedNow(b []byte) {
	vsched.Touch(c.rd)
	c.in = append(c.in, append([]byte(nil), b...))
}

// RemoteClose ends what the remote side sends.
func (c *TCPConn) RemoteClose() { vsched.StepOn("remote closes", c.rd, false); c.eof = true }

// RemoteReset breaks the connection.
func (c *TCPConn) RemoteReset() {
	vsched.StepOn("remote resets", c.rd, false)
	vsched.Touch(c.wr)
	c.reset = true
}

// Drain lets the remote side read what was written.
func (c *TCPConn) Drain() { vsched.StepOn("remote reads", c.wr, false); c.pending = 0 }

// Stall limits what the remote side takes.
func (c *TCPConn) Stall(window int) { c.plan.Window = window }

// Closed tells whether the local side closed it.
func (c *TCPConn) Closed() bool { return c.closed }

// Left is the number of bytes the local side has not read.
func (c *TCPConn) Left() (n int) {
	for _, b := range c.in {
		n += len(b)
	}
	return
}

// DialTCP connects.
func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	return dial(raddr, 0)
}

func dial(raddr *TCPAddr, timeout time.Duration) (*TCPConn, error) {
	return dialUntil(raddr, timeout, nil)
}

func dialUntil(raddr *TCPAddr, timeout time.Duration, ctx context.Context) (*TCPConn, error) {
	if raddr == nil {
		return nil, &real.OpError{Op: "dial", Net: "tcp", Err: errors.New("missing address")}
	}
	n := cur()
	addr := raddr.String()
	vsched.Do("dial "+addr, n.obj, false, nil, 0)
	k := n.count[addr]
	n.count[addr]++
	var plan Plan
	if n.OnDial != nil {
		plan = n.OnDial(addr, k)
	} else {
		plan.Refuse = true
	}
	d := Attempt{Addr: addr, At: vsched.Now()}
	i := len(n.Dials)
	n.Dials = append(n.Dials, d)
	fail := func(err error) error { return &real.OpError{Op: "dial", Net: "tcp", Addr: raddr, Err: err} }
	if plan.Hang {
		w := 127 * time.Second
		if timeout > 0 && timeout < w {
			w = timeout
		}
		if ctx != nil && ctx.Done() != nil {
			passed := make(chan struct{}, 1)
			t := vsched.StartTimer(int64(w), func() { vsched.Fill(passed, struct{}{}) })
			if vsched.Select("dial", false, vsched.CaseRecv(ctx.Done()), vsched.CaseRecv((<-chan struct{})(passed))) == 0 {
				vsched.StopTimer(t)
				if ctx.Err() == context.DeadlineExceeded {
					return nil, fail(os.ErrDeadlineExceeded)
				}
				return nil, fail(errors.New("operation was canceled"))
			}
		} else {
			vsched.SleepFor(int64(w))
		}
		return nil, fail(os.ErrDeadlineExceeded)
	}
	if plan.Refuse || raddr.Port == 0 {
		return nil, fail(syscall.ECONNREFUSED)
	}
	if raddr.IP == nil || raddr.IP.Equal(real.IPv4zero) { // this host
		raddr = &real.TCPAddr{IP: real.IPv4(127, 0, 0, 1), Port: raddr.Port}
	} else if raddr.IP.Equal(real.IPv6zero) {
		raddr = &real.TCPAddr{IP: real.IPv6loopback, Port: raddr.Port}
	}
	c := n.newConn(raddr, plan)
	n.Conns = append(n.Conns, c)
	n.Dials[i].OK, n.Dials[i].Conn = true, c
	if n.Opened != nil {
		n.Opened(c)
	}
	return c, nil
}

func checkNet(network string) error {
	switch network {
	case "tcp", "tcp4", "tcp6":
		return nil
	}
	return fmt.Errorf("vnet: network %s is not simulated", network)
}

// Dial connects.
func Dial(network, address string) (Conn, error) { return DialTimeout(network, address, 0) }

// DialTimeout connects.
func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {
	if err := checkNet(network); err != nil {
		return nil, err
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	c, err := dial(a, timeout)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Dialer stands in for net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     Addr
	KeepAlive     time.Duration
	FallbackDelay time.Duration
	DualStack     bool
	Cancel        <-chan struct{}
}

func (d *Dialer) timeout() time.Duration {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		if u := d.Deadline.Sub(time.Unix(0, vsched.Now())); t == 0 || u < t {
			t = u
		}
	}
	return t
}

// Dial connects.
func (d *Dialer) Dial(network, address string) (Conn, error) {
	return DialTimeout(network, address, d.timeout())
}

// DialContext connects.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if err := checkNet(network); err != nil {
		return nil, err
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	c, err := dialUntil(a, d.timeout(), ctx)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// TCPListener cannot be used here.
type TCPListener struct{ addr *TCPAddr }

// Accept waits for ever.
func (l *TCPListener) Accept() (Conn, error) { return nil, errors.New("vnet: no listener") }

// AcceptTCP waits for ever.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) { return nil, errors.New("vnet: no listener") }

// Close closes.
func (l *TCPListener) Close() error { return nil }

// Addr is its address.
func (l *TCPListener) Addr() Addr { return l.addr }

// Listen is not simulated.
func Listen(network, address string) (Listener, error) {
	return nil, errors.New("vnet: listening is not simulated")
}

// ListenTCP is not simulated.
func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	return nil, errors.New("vnet: listening is not simulated")
}

// ResolveTCPAddr resolves literal addresses, and names the network knows.
func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	host, port, err := real.SplitHostPort(address)
	if err == nil && host != "" && real.ParseIP(stripZone(host)) == nil {
		if r := vsched.Active(); r != nil {
			if n, ok := r.Env.(*Net); ok && n.Hosts[host] != "" {
				return real.ResolveTCPAddr(network, real.JoinHostPort(n.Hosts[host], port))
			}
		}
		if host == "localhost" {
			return real.ResolveTCPAddr(network, real.JoinHostPort("127.0.0.1", port))
		}
		return nil, &real.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return real.ResolveTCPAddr(network, address)
}

func stripZone(s string) string {
	for i := range s {
		if s[i] == '%' {
			return s[:i]
		}
	}
	return s
}

// LookupHost resolves a name.
func LookupHost(host string) ([]string, error) {
	a, err := ResolveTCPAddr("tcp", real.JoinHostPort(host, "0"))
	if err != nil {
		return nil, err
	}
	return []string{a.IP.String()}, nil
}

// LookupIP resolves a name.
func LookupIP(host string) ([]IP, error) {
	a, err := ResolveTCPAddr("tcp", real.JoinHostPort(host, "0"))
	if err != nil {
		return nil, err
	}
	return []IP{a.IP}, nil
}

// Faults lets every write from now on fail, as a decision; later ones may
// succeed.
func (c *TCPConn) Faults() { c.plan.WriteFault, c.plan.Soft = true, true }

// EOFNow ends what the remote side sends without being a step of its own.
func (c *TCPConn) EOFNow() { vsched.Touch(c.rd); c.eof = true }
