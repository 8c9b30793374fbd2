package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/vs"
	"verif/vs/vnet"
)

// messages: msgs[i] is sent, wires[i] is what RFC 5424 wants for it.
var (
	msgs  []syslog5424.Message
	wires []string
)

func init() {
	// what varies has periods of different lengths, so that neighbours differ in every way
	prios, years := []int{13, 8, 0, 191, 15, 13, 13}, []int{2003, 2003, 1999, 2031, 2003}
	for i := 0; i < 3200; i++ {
		txt, id := "t"+strconv.Itoa(i), "m"+strconv.Itoa(i)
		if i%3 == 2 {
			txt += " a longer text"
		}
		app, y, sd := []string{"a", "a", "a/b"}[i/2%3], years[i/3%len(years)], "-"
		m := syslog5424.CreateWholeMessage(syslog5424.Priority(prios[i%len(prios)]), time.Date(y, 10, 11, 22, 14, 15, 0, time.UTC), "h", app, "p", id, txt)
		if i%11 == 9 {
			m, sd = m.StructuredData(timequality.TimeQuality{TzKnown: true}), `[timeQuality tzKnown="1"]`
		}
		msgs = append(msgs, m)
		wires = append(wires, fmt.Sprintf("<%d>1 %d-10-11T22:14:15Z h %s p %s %s %s", prios[i%len(prios)], y, app, id, sd, txt))
	}
}

type transport struct {
	name string
	t    syslog5424.Transport
}

var transports = []transport{{"lf", syslog5424.TransportLFEnded}, {"nul", syslog5424.TransportZeroEnded}, {"rfc5425", syslog5424.TransportRFC5425}}

func (t transport) frame(payload string) string {
	switch t.name {
	case "lf":
		return payload + "\n"
	case "nul":
		return payload + "\x00"
	case "crlf":
		return payload + "\r\n"
	case "fixed":
		return fmt.Sprintf("%06d%s", len(payload), payload)
	default:
		return strconv.Itoa(len(payload)) + " " + payload
	}
}

// end is where the first frame of b ends, if it is whole.
func (t transport) end(b string) int {
	n := len(b)
	switch t.name {
	case "lf":
		n = strings.IndexByte(b, '\n') + 1
	case "nul":
		n = strings.IndexByte(b, 0) + 1
	case "crlf":
		if n = strings.Index(b, "\r\n") + 2; n == 1 {
			n = 0
		}
	case "fixed":
		if len(b) >= 6 {
			if l, err := strconv.Atoi(b[:6]); err == nil && l >= 0 && 6+l <= len(b) {
				n = 6 + l
			}
		}
	default:
		if i := strings.IndexByte(b, ' '); i > 0 {
			if l, err := strconv.Atoi(b[:i]); err == nil && i+1+l <= len(b) && l >= 0 {
				n = i + 1 + l
			}
		}
	}
	if n == 0 {
		n = len(b)
	}
	return n
}

// what a write can do
type outcome int

const (
	wOK outcome = iota
	wErr0
	wErrHalf
	wErrAlmost
	wErrAll
	wOpHalf
	wOpReset
	wNoBufs
	wNoBufsHalf
	wConnect
	wKind // and the following: errors[k-wKind]
)

// kinds of errors other than the temporary one
var kinds []error

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func init() {
	for e := syscall.Errno(1); e < 134; e++ {
		if e != syscall.ENOBUFS {
			kinds = append(kinds, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", e)})
		}
	}
	for _, e := range []error{io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, net.ErrClosed, timeout{}, context.DeadlineExceeded, context.Canceled} {
		kinds = append(kinds, e, &net.OpError{Op: "write", Net: "unix", Err: e}, &os.PathError{Op: "write", Path: "x", Err: e}, fmt.Errorf("write: %w", e))
	}
	for _, e := range []syscall.Errno{syscall.EPIPE, syscall.EAGAIN, syscall.EINTR, syscall.ENOSPC, syscall.EIO, syscall.ECONNREFUSED, syscall.ENOENT} {
		kinds = append(kinds, e, os.NewSyscallError("write", e), &os.PathError{Op: "write", Path: "x", Err: e}, &net.OpError{Op: "write", Net: "unix", Err: e}, &net.OpError{Op: "writev", Net: "unix", Err: os.NewSyscallError("writev", e)})
	}
}

var errPlain = errors.New("plain")

type destErr struct{ n int }

func (e *destErr) Error() string { return "failure " + strconv.Itoa(e.n) }

// dest is the destination of a sender: it hands out connections and records everything.
type dest struct {
	failConnect bool
	allConnects bool      // with every kind of error
	writes      []outcome // what the writes can do besides wOK
	healthy     bool      // nothing fails any more
	down        outcome   // what every connect (wConnect) or write does, if not wOK
	downFrom    int       // from the operation after that many
	downFor     int       // if not 0, only that many times
	slow        bool      // everything takes an hour
	gate        chan int  // waited for in the operation gateOn, once, after gateAfter others
	gateOn      string
	gateAfter   int
	conns       []*conn
	connects    int
	errs        []error // failures to be reported, in order
	wrong       string
	ops         int
	net         *vnet.World // the destination is a virtual socket
}

type conn struct {
	d      *dest
	b      []byte
	failed bool
	none   bool // came with an error of Connect
	closed int
	after  int // bytes or writes after the close
}

func (d *dest) fault(f string, a ...interface{}) {
	if d.wrong == "" {
		d.wrong = fmt.Sprintf(f, a...)
	}
}

// pass waits for the gate.
func (d *dest) pass(op string) {
	if d.gateOn != op || op == "" {
		return
	}
	if d.gateAfter > 0 {
		d.gateAfter--
		return
	}
	d.gateOn = ""
	vs.Recv(d.gate)
}

func (d *dest) Connect() (syslog5424.WriteCloser, error) {
	d.pass("connect")
	if d.slow {
		vs.Sleep(time.Hour)
	}
	n := 1
	if d.failConnect && !d.healthy {
		n = 2
		if d.allConnects {
			n += len(kinds)
		}
	}
	o := vs.Choose(unsafe.Pointer(d), n, 1, "connect")
	if d.isDown(true) {
		o = 1
	}
	d.ops++
	d.connects++
	if o >= 1 {
		d.upAgain()
		var e error = &destErr{len(d.errs)}
		if o > 1 {
			e = kinds[o-2]
		}
		d.errs = append(d.errs, e)
		if d.connects%2 == 0 { // what comes with an error is not to be used
			return &conn{d: d, none: true}, e
		}
		return nil, e
	}
	c := &conn{d: d}
	d.conns = append(d.conns, c)
	return c, nil
}

// isDown tells whether this operation fails
func (d *dest) isDown(connect bool) bool {
	if d.down == wOK || (d.down == wConnect) != connect {
		return false
	}
	if d.downFrom > 0 {
		d.downFrom--
		return false
	}
	return true
}

// upAgain counts a failure down
func (d *dest) upAgain() {
	if d.downFor > 0 {
		if d.downFor--; d.downFor == 0 {
			d.down = wOK
		}
	}
}

func (c *conn) Write(p []byte) (int, error) {
	d := c.d
	d.pass("write")
	if d.slow {
		vs.Sleep(time.Hour)
	}
	n := 1
	if !d.healthy && len(p) > 0 {
		n += len(d.writes)
	}
	k := vs.Choose(unsafe.Pointer(d), n, 1, "write")
	d.ops++
	if c.none {
		d.fault("write of %q to what came with the error of a connect", p)
	}
	if c.closed > 0 {
		d.fault("write of %q to a closed connection", p)
		return 0, os.ErrClosed
	}
	if c.failed {
		d.fault("write of %q to a connection whose write failed", p)
	}
	does := wOK
	if len(p) > 0 && d.isDown(false) {
		does = d.down
		d.upAgain()
	}
	if k > 0 {
		does = d.writes[k-1]
	}
	if does == wOK || len(p) == 0 {
		c.b = append(c.b, p...)
		return len(p), nil
	}
	w := 0
	var err error = &destErr{len(d.errs)}
	temp := false
	switch does {
	case wErr0:
	case wErrHalf:
		w = (len(p) + 1) / 2
	case wErrAlmost:
		w = len(p) - 1
	case wErrAll:
		w = len(p)
	case wOpHalf:
		w = len(p) / 2
		err = &net.OpError{Op: "write", Net: "tcp", Err: err}
	case wOpReset:
		err = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)}
	case wNoBufs, wNoBufsHalf:
		if does == wNoBufsHalf {
			w = len(p) / 2
		}
		temp = true
		err = &net.OpError{Op: "write", Net: "unixgram", Err: os.NewSyscallError("write", syscall.ENOBUFS)}
	default:
		w = len(p) / 2
		err = kinds[does-wKind]
	}
	c.b = append(c.b, p[:w]...)
	if !temp {
		c.failed = true
		d.errs = append(d.errs, err)
	}
	return w, err
}

func (c *conn) Close() error {
	if c.d.slow {
		vs.Sleep(time.Hour)
	}
	vs.Point(unsafe.Pointer(c.d), "close")
	c.d.ops++
	c.closed++
	if c.d.ops%2 == 0 { // closed all the same
		return errClose
	}
	return nil
}

var errClose = errors.New("close failure")

// sent is one Send of the harness.
type sent struct {
	who, idx int
	msg      int // index in msgs
	err      error
	done     bool
}

// stream checks what the connections carried against the frames of the sends that returned nil; sends that did not
// return an error are in all. It returns the order of the messages.
func (d *dest) stream(t transport, all []*sent, complete bool) (order []int, msg string) {
	if d.wrong != "" {
		return nil, d.wrong
	}
	frames := map[string]int{}
	for i := range all {
		frames[t.frame(wires[all[i].msg])] = i
	}
	used := make([]bool, len(all))
	torn := "" // beginning of a frame at the end of a failed connection
	for n, c := range d.conns {
		b := string(c.b)
		first := true
		for len(b) > 0 {
			k := -1
			if i, ok := frames[b[:t.end(b)]]; ok && !used[i] {
				k = i
				b = b[t.end(b):]
			}
			if k < 0 {
				// only the last frame of a failed connection may be cut
				if c.failed || (n == len(d.conns)-1 && !complete) {
					for f, i := range frames {
						if len(b) < len(f) && f[:len(b)] == b && !used[i] {
							k = i
						}
					}
					if k >= 0 {
						if first && torn != "" {
							if len(b) < len(torn) {
								b, torn = torn, b
							}
							if b[:len(torn)] != torn {
								return nil, fmt.Sprintf("connection %d carries %q, but the previous one was cut in another frame", n, c.b)
							}
						}
						torn = b
						b = ""
						break
					}
				}
				return nil, fmt.Sprintf("connection %d carries %q: %q is no frame to be written", n, c.b, b)
			}
			if first && torn != "" && !strings.HasPrefix(t.frame(wires[all[k].msg]), torn) {
				return nil, fmt.Sprintf("connection %d begins with %q, but the previous one was cut in %q", n, c.b, torn)
			}
			first = false
			torn = ""
			used[k] = true
			order = append(order, k)
		}
	}
	if complete && torn != "" {
		return order, fmt.Sprintf("the frame cut after %q is not repeated", torn)
	}
	for i, s := range all {
		if s.done && s.err != nil && used[i] {
			return order, fmt.Sprintf("message %d was refused with %v and is written", s.msg, s.err)
		}
		if complete && s.done && s.err == nil && !used[i] {
			return order, fmt.Sprintf("message %d was accepted and is not written: %s", s.msg, d)
		}
	}
	// order of each sender
	last := map[int]int{}
	for _, k := range order {
		s := all[k]
		if s.idx < last[s.who] {
			return order, fmt.Sprintf("message %d of sender %d is written too late: %s", s.idx, s.who, d)
		}
		last[s.who] = s.idx
	}
	return order, ""
}

func (d *dest) String() string {
	s := ""
	for i, c := range d.conns {
		s += fmt.Sprintf(" connection %d carries %q (failed %v, closed %d times)", i, c.b, c.failed, c.closed)
	}
	return s
}

// closedOnce tells whether every connection is closed exactly once.
func (d *dest) closedOnce() string {
	for i, c := range d.conns {
		if c.closed != 1 {
			return fmt.Sprintf("connection %d of %d is closed %d times", i, len(d.conns), c.closed)
		}
	}
	return ""
}

// where the virtual destinations are
var virtual = map[string]string{"unix": "/virtual/log", "unixgram": "/virtual/datagrams", "local": "/virtual/log", "tcp": "192.0.2.1:514"}

// over makes the destination a virtual socket: the library connects to it by itself.
func (d *dest) over(via string) syslog5424.Connector {
	d.net = &vnet.World{}
	vnet.Use(d.net)
	d.net.OnDial = func(network, raddr string) error {
		if via == "local" && network != "unix" {
			return nil // not the kind of socket that is there
		}
		_, err := d.Connect()
		return err
	}
	d.net.OnWrite = func(s *vnet.Sock, b []byte) (int, error) {
		c := d.of(s)
		if c == nil {
			return 0, syscall.ENOTCONN
		}
		n, err := c.Write(b)
		if _, ok := err.(*net.OpError); err != nil && !ok {
			err = &net.OpError{Op: "write", Net: s.Net, Err: err}
		}
		return n, err
	}
	switch via {
	case "tcp":
		vnet.Served("tcp", virtual[via])
		return syslog5424.TCPConnector(via, virtual[via])
	case "local":
		vnet.Served("unix", virtual[via])
		return syslog5424.LocalConnector("", virtual[via])
	}
	vnet.Served(via, virtual[via])
	return syslog5424.LocalConnector(via, virtual[via])
}

// of is the record of a dialled socket.
//
//go:norace
func (d *dest) of(s *vnet.Sock) *conn {
	n := 0
	for _, x := range d.net.Socks {
		if x == s && n < len(d.conns) {
			return d.conns[n]
		}
		if x.Dialed {
			n++
		}
	}
	return nil
}

// look takes what is known of the virtual sockets over to the connections, and counts the operations.
//
//go:norace
func (d *dest) look() int {
	if d.net == nil {
		return d.ops
	}
	n := d.ops
	for _, x := range d.net.Socks {
		if x.Dialed {
			x.Look()
			if c := d.of(x); c != nil {
				c.closed = x.Closed
			}
			n += x.Closed
			if x.Late > 0 {
				d.fault("write to a closed connection")
			}
		}
	}
	return n
}
