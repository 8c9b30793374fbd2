package main

import (
	"errors"
	"io"
	"net"
	"strconv"
	"unsafe"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/vs"
)

// chunk is what one or more reads of a connection give.
type chunk struct {
	b   []byte
	err error // with the last bytes
}

// rconn is a connection of a receiver; the harness feeds it.
type rconn struct {
	ch      chan chunk
	pre     []chunk // before what ch gives
	pending []byte
	err     error
	max     int // largest read, 0: no limit
	reads   int
	closed  int
	after   int // reads after the end, an error or the close
	over    bool
	taken   bool // given by Accept
	none    bool // came with an error of Accept
	l       *rlistener
}

var errRead = errors.New("read failure")

func newConn(max int) *rconn { return &rconn{ch: make(chan chunk), max: max} }

func (c *rconn) Read(p []byte) (int, error) {
	vs.Point(unsafe.Pointer(c), "read")
	c.reads++
	if c.none {
		c.l.misuse()
		return 0, io.EOF
	}
	if c.over || c.closed > 0 {
		c.after++
		return 0, io.ErrClosedPipe
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.pending) == 0 && c.err == nil {
		var k chunk
		if len(c.pre) > 0 {
			k, c.pre = c.pre[0], c.pre[1:]
		} else {
			var ok bool
			if k, ok = vs.Recv2(c.ch); !ok {
				c.over = true
				return 0, io.EOF
			}
		}
		c.pending, c.err = k.b, k.err
	}
	n := len(p)
	if c.max > 0 && n > c.max {
		n = c.max
	}
	n = copy(p[:n], c.pending)
	c.pending = c.pending[n:]
	if len(c.pending) == 0 && c.err != nil {
		c.over = true
		return n, c.err
	}
	return n, nil
}

func (c *rconn) Close() error {
	vs.Point(unsafe.Pointer(c), "close")
	c.closed++
	if c.reads%2 == 0 { // closed all the same
		return errClose
	}
	return nil
}

// RemoteAddr may be unknown, as on a datagram socket, and need not be unique.
func (c *rconn) RemoteAddr() net.Addr {
	if c.max%2 == 1 {
		return nil
	}
	return &net.TCPAddr{}
}

// rlistener gives the connections and errors of its script, then waits to be closed.
type rlistener struct {
	script  []interface{} // *rconn, error or *gate
	next    int
	accepts int
	late    int  // Accept calls after the close
	misused bool // what came with an error of Accept was read
	closed  int
	done    chan int
}

// gate is passed when the harness opens it or the listener is closed.
type gate struct{ ch chan int }

var errListen = errors.New("use of closed listener")

func newListener(script ...interface{}) *rlistener {
	return &rlistener{script: script, done: make(chan int)}
}

// its own state is shared by design
//
//go:norace
func (l *rlistener) Accept() (syslog5424.DataReader, error) {
	vs.Point(unsafe.Pointer(l), "accept")
	l.accepts++
	for {
		if l.closed > 0 {
			l.late++
			return nil, errListen
		}
		if l.next == len(l.script) {
			vs.Recv2(l.done)
			return nil, errListen
		}
		it := l.script[l.next]
		l.next++
		switch v := it.(type) {
		case *gate:
			if vs.Select(false, vs.CaseRecv(v.ch), vs.CaseRecv(l.done)) == 1 {
				return nil, errListen
			}
		case *rconn:
			v.taken = true
			return v, nil
		case error:
			if l.next%2 == 0 { // what comes with an error is not to be used
				return &rconn{none: true, l: l}, v
			}
			return nil, v
		}
	}
}

//go:norace
func (l *rlistener) misuse() { l.misused = true }

//go:norace
func (l *rlistener) Close() error {
	vs.Point(unsafe.Pointer(l), "close listener")
	l.closed++
	if l.closed == 1 {
		vs.Close(l.done)
	}
	if l.accepts%2 == 0 { // closed all the same
		return errClose
	}
	return nil
}

// event is what Receive gave.
type event struct {
	m   syslog5424.MessageImmutable
	err error
	was string // String of the message when it was received
}

// fields is everything a message tells.
func fields(m syslog5424.MessageImmutable) string {
	sd := m.StructuredData()
	b, err := sd.Marshal5424()
	s := strconv.Itoa(int(m.Priority())) + "|" + m.TimeStamp().String() + "|" + m.Hostname() + "|" + m.AppName() + "|" + m.ProcID() + "|" + m.MsgID() + "|" + strconv.Itoa(len(sd)) + "|" + string(b) + "|" + m.Text() + "|" + m.String()
	if err != nil {
		s += "|" + err.Error()
	}
	return s
}

// fr is one frame of a stream.
type fr struct {
	wire    string
	payload string // of a valid message
	bad     bool   // costs one error
	fatal   bool   // ends the connection
}

func good(t transport, m string) fr      { return fr{wire: t.frame(m), payload: m} }
func malformed(t transport, m string) fr { return fr{wire: t.frame(m), bad: true} }

var alone = map[string]string{}

// parsedAlone is what parsing the payload alone gives.
func parsedAlone(p string) string {
	if s, ok := alone[p]; ok {
		return s
	}
	s := ""
	vs.Quietly(func() {
		m, _, err := syslog5424.Parse([]byte(p), nil, true)
		if err != nil {
			s = "error " + err.Error()
		} else {
			s = fields(m)
		}
	})
	alone[p] = s
	return s
}
