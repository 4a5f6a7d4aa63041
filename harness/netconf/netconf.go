// Package netconf binds the simulated connections of vnet to real ones: every
// sequence of operations up to a length is performed on both, the results are
// compared.
package netconf

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"

	"verif/vsched"
	"verif/vsched/vnet"
)

// conn is what both kinds of connections can do.
type conn interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Close() error
	CloseWrite() error
	SetDeadline(time.Time) error
	SetReadDeadline(time.Time) error
	SetWriteDeadline(time.Time) error
}

// remote is the other side.
type remote interface {
	feed(b []byte)
	closeWrite()
	reset()
	got() int // bytes received so far
}

var ops = []string{"read1", "read8", "write", "close", "closewrite", "past", "pastread", "pastwrite", "nodeadline", "R:feed3", "R:feed9", "R:eof", "R:reset"}

func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, net.ErrClosed):
		return "closed"
	case errors.Is(err, os.ErrDeadlineExceeded):
		return "timeout"
	case errors.Is(err, syscall.ECONNRESET), errors.Is(err, syscall.EPIPE), errors.Is(err, syscall.ENOTCONN):
		return "broken"
	}
	return err.Error()
}

// play performs a sequence; settle waits until what was done has arrived,
// wait is how long a read may take.
func play(seq []int, c conn, r remote, now func() time.Time, wait time.Duration, settle func()) (out []string) {
	explicit := false
	b := make([]byte, 16)
	for _, k := range seq {
		op := ops[k]
		n, err := 0, error(nil)
		read := func(m int) {
			if !explicit {
				c.SetReadDeadline(now().Add(wait))
			}
			n, err = c.Read(b[:m])
			if !explicit {
				c.SetReadDeadline(time.Time{})
			}
		}
		switch op {
		case "read1":
			read(1)
		case "read8":
			read(8)
		case "write":
			n, err = c.Write([]byte("abcde"))
		case "close":
			err = c.Close()
		case "closewrite":
			err = c.CloseWrite()
		case "past":
			err, explicit = c.SetDeadline(now().Add(-time.Second)), true
		case "pastread":
			err, explicit = c.SetReadDeadline(now().Add(-time.Second)), true
		case "pastwrite":
			err = c.SetWriteDeadline(now().Add(-time.Second))
		case "nodeadline":
			err, explicit = c.SetDeadline(time.Time{}), false
		case "R:feed3":
			r.feed([]byte("123"))
		case "R:feed9":
			r.feed([]byte("123456789"))
		case "R:eof":
			r.closeWrite()
		case "R:reset":
			r.reset()
		}
		settle()
		res := class(err)
		if op == "write" && res == "broken" {
			n = 0
		}
		out = append(out, fmt.Sprintf("%s=%d,%s", op, n, res))
	}
	return append(out, fmt.Sprintf("received %d", r.got()))
}

type simRemote struct{ c *vnet.TCPConn }

func (r simRemote) feed(b []byte) { r.c.Feed(b) }
func (r simRemote) closeWrite()   { r.c.RemoteClose() }
func (r simRemote) reset()        { r.c.RemoteReset() }
func (r simRemote) got() int      { return len(r.c.Out) }

func sim(seq []int) (out []string) {
	vsched.Execute(&vsched.Config{MaxSteps: 10000}, nil, nil, nil, false, func() {
		vnet.Use(&vnet.Net{})
		c := vnet.NewConn("10.0.0.2:1000", vnet.Plan{})
		out = play(seq, c, simRemote{c}, func() time.Time { return time.Unix(0, vsched.Now()) }, time.Second, func() {})
	})
	return
}

type realRemote struct {
	c    *net.TCPConn
	mu   sync.Mutex
	n    int
	done chan struct{}
}

func (r *realRemote) feed(b []byte) { r.c.Write(b) }
func (r *realRemote) closeWrite()   { r.c.CloseWrite() }
func (r *realRemote) reset()        { r.c.SetLinger(0); r.c.Close() }
func (r *realRemote) got() int      { r.mu.Lock(); defer r.mu.Unlock(); return r.n }

func loop(l *net.TCPListener, mu *sync.Mutex, seq []int, wait time.Duration) ([]string, error) {
	mu.Lock()
	a, err := net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
	if err != nil {
		mu.Unlock()
		return nil, err
	}
	b, err := l.AcceptTCP()
	mu.Unlock()
	if err != nil {
		return nil, err
	}
	r := &realRemote{c: b, done: make(chan struct{})}
	go func() {
		defer close(r.done)
		buf := make([]byte, 64)
		for {
			n, err := b.Read(buf)
			r.mu.Lock()
			r.n += n
			r.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	out := play(seq, a, r, time.Now, wait, func() { time.Sleep(wait / 8) })
	a.Close()
	b.Close()
	<-r.done
	return out, nil
}

// left out are sequences where TCP itself leaves the result open or vnet
// declares no behaviour: anything by the remote side after it ended or reset,
// and reads or writes of the local side after a local write to a reset
// connection (the first one or the second one fails).
func defined(seq []int) bool {
	over, reset, closed, failed := false, false, false, false
	unread := 0 // a later segment may come together with an earlier one: both are right
	for _, k := range seq {
		op := ops[k]
		if op[0] == 'R' {
			if over || closed {
				return false
			}
			if op[:5] == "R:fee" {
				if unread > 0 {
					return false
				}
				unread = int(op[6] - '0')
			}
			over = op == "R:eof" || op == "R:reset"
			reset = op == "R:reset"
			continue
		}
		if op == "read1" || op == "read8" {
			if unread -= int(op[4] - '0'); unread < 0 {
				unread = 0
			}
		}
		if op == "close" {
			closed = true
		}
		if reset && (op == "closewrite" || failed && !closed) {
			return false // the error is reported once
		}
		if reset && !closed && (op == "write" || op == "read1" || op == "read8") {
			failed = true
		}
	}
	return true
}

// Run compares all sequences of a length; it returns their number and the
// first difference.
func Run(length int) (int, error) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return 0, err
	}
	defer l.Close()
	var seqs [][]int
	var gen func(pre []int)
	gen = func(pre []int) {
		if len(pre) == length {
			if defined(pre) {
				seqs = append(seqs, append([]int(nil), pre...))
			}
			return
		}
		for k := range ops {
			gen(append(pre, k))
		}
	}
	gen(nil)
	want := make([]string, len(seqs))
	for i, s := range seqs {
		want[i] = fmt.Sprint(sim(s))
	}
	var mu, res sync.Mutex
	var first error
	next := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 8*runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				var got string
				// a busy machine may need longer
				for _, wait := range []time.Duration{16 * time.Millisecond, 200 * time.Millisecond, 2 * time.Second} {
					o, err := loop(l, &mu, seqs[i], wait)
					if err != nil {
						got = err.Error()
					} else {
						got = fmt.Sprint(o)
					}
					if got == want[i] {
						break
					}
				}
				if got != want[i] {
					res.Lock()
					if first == nil {
						first = fmt.Errorf("vnet: %s, loopback: %s", want[i], got)
					}
					res.Unlock()
				}
			}
		}()
	}
	for i := range seqs {
		res.Lock()
		stop := first != nil
		res.Unlock()
		if stop {
			break
		}
		next <- i
	}
	close(next)
	wg.Wait()
	return len(seqs), first
}
