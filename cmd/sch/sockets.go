package main

import (
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
	"verif/vs/vnet"
)

var socketDir string

// socketPath is a path where nothing is.
func socketPath() string {
	if socketDir == "" {
		socketDir = scratch()
	}
	p := filepath.Join(socketDir, "log")
	os.Remove(p)
	return p
}

// ls is a scenario of a receiver on one of the library's listeners, in a virtual network.
type ls struct {
	network string
	t       transport
	clients []int // frames of each client
	queue   int
	slow    bool // received from only when End was called and nothing else can happen
	endAt   int
	wait    time.Duration // before each write of a client
	grouped bool          // all frames of a client in one write
	limit   int           // datagrams that fit in the socket
	preempt int
}

const (
	lsLate = iota // End when everything is received, or waits to be
	lsMid         // End while the clients send; the receiver was waiting before
	lsAny         // End at any time
)

func (m ls) name() string {
	s := fmt.Sprintf("%s-%s-%v-queue%d-end%d", m.network, m.t.name, m.clients, m.queue, m.endAt)
	if m.slow {
		s += "-slow"
	}
	if m.grouped {
		s += "-grouped"
	}
	if m.wait > 0 {
		s += "-every" + m.wait.String()
	}
	if m.limit > 0 {
		s += "-limit" + strconv.Itoa(m.limit)
	}
	return s + "-preempt" + strconv.Itoa(m.preempt)
}

// client is what one client did.
type client struct {
	frames  []string // payloads
	sock    *vnet.Sock
	dialErr error
	sendErr error
	written int // frames written
	before  int // frames written before End was called
	done    bool
}

type lsRun struct {
	w       *vnet.World
	path    string
	lerr    error
	clients []*client
	got     []*event
	over    bool
	ended   bool // End was called
	stopped bool // End returned
	errs    []error
	endTime time.Time
	took    time.Duration
	again   error // dialling when all is over
	late    string
}

type dialed interface {
	Write([]byte) (int, error)
	Close() error
}

func dialWorld(network, addr string) (dialed, *vnet.Sock, error) {
	if network == "unix" || network == "unixgram" {
		c, err := vnet.DialUnix(network, nil, &net.UnixAddr{Name: addr, Net: network})
		if err != nil {
			return nil, nil, err
		}
		return c, c.Sock(), nil
	}
	a, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		return nil, nil, err
	}
	c, err := vnet.DialTCP(network, nil, a)
	if err != nil {
		return nil, nil, err
	}
	return c, c.Sock(), nil
}

func (m ls) body(rp **lsRun) func() {
	return func() {
		r := &lsRun{w: &vnet.World{QueueTo: m.limit}}
		*rp = r
		vnet.Use(r.w)
		var l syslog5424.Listener
		if m.network == "unix" || m.network == "unixgram" {
			r.path = socketPath()
		} else {
			r.path = "127.0.0.1:5514"
		}
		l, r.lerr = syslog5424.GuessListener(m.network, r.path)
		if r.lerr != nil {
			return
		}
		rcv, errs := syslog5424.NewReceiver(l, m.queue, m.t.t)
		open := make(chan int)
		over := make(chan int, 1)
		vs.GoH("consumer", func() {
			if m.slow {
				vs.Recv2(open)
			}
			for {
				msg, err, ok := rcv.Receive()
				if !ok {
					break
				}
				e := &event{m: msg, err: err}
				if err == nil {
					e.was = fields(msg)
				}
				r.got = append(r.got, e)
			}
			r.over = true
			vs.SendTo(over)(1)
		})
		if m.endAt != lsAny {
			vs.WaitIdle()
		}
		// what has happened when End is called is known through this channel
		turn := make(chan int, 1)
		vs.SendTo(turn)(1)
		finished := make(chan int, len(m.clients))
		for i, n := range m.clients {
			i, n := i, n
			c := &client{}
			r.clients = append(r.clients, c)
			for k := 0; k < n; k++ {
				c.frames = append(c.frames, fmt.Sprintf("<1%d>1 - h%d - - m%d [c n=\"%d\"] c%d m%d", i, i, k, k, i, k))
			}
			vs.GoH("client", func() {
				defer vs.SendTo(finished)(1)
				var o dialed
				o, c.sock, c.dialErr = dialWorld(m.network, r.path)
				if c.dialErr != nil {
					return
				}
				wire := ""
				for k, f := range c.frames {
					wire += m.t.frame(f)
					if m.grouped && k < n-1 {
						continue
					}
					if m.wait > 0 {
						vs.Sleep(m.wait)
					}
					if _, c.sendErr = o.Write([]byte(wire)); c.sendErr != nil {
						break
					}
					wire = ""
					vs.Recv(turn)
					c.written = k + 1
					if !r.ended {
						c.before = k + 1
					}
					vs.SendTo(turn)(1)
				}
				o.Close()
				c.done = true
			})
		}
		if m.endAt == lsLate {
			for range m.clients {
				vs.Recv(finished)
			}
			vs.WaitIdle()
			r.errs = drain(errs)
		}
		vs.Recv(turn)
		r.ended = true
		vs.SendTo(turn)(1)
		r.endTime = vs.Now()
		rcv.End()
		r.stopped = true
		if m.slow {
			vs.WaitIdle()
			vs.Close(open)
		}
		vs.Recv(over)
		r.took = vs.Now().Sub(r.endTime)
		if m.endAt != lsLate {
			for range m.clients {
				vs.Recv(finished)
			}
		}
		vs.WaitIdle()
		var o dialed
		o, _, r.again = dialWorld(m.network, r.path)
		if o != nil {
			o.Close()
		}
		r.state()
	}
}

// state looks at the sockets.
//
//go:norace
func (r *lsRun) state() {
	for _, s := range r.w.Socks {
		s.Look()
		own := s.Dialed && s.Peer != nil
		if s.Closed == 0 && !own && !(s.Peer != nil && !s.Accepted) {
			r.late = fmt.Sprintf("socket %d of the receiver is never closed", s.ID)
		}
	}
	for _, l := range r.w.Lists {
		if l.Closed == 0 {
			r.late = "the listener is never closed"
		}
	}
}

func (m ls) judge(r *lsRun) string {
	if r.lerr != nil {
		return "the listener cannot be created: " + r.lerr.Error()
	}
	if r.late != "" {
		return r.late
	}
	if r.again == nil {
		return "connecting still succeeds after End"
	}
	if r.took > time.Minute+8*m.wait {
		return "the end of the stream is reported " + r.took.String() + " after End"
	}
	if len(r.errs) > 0 {
		return fmt.Sprintf("reported: %v, though nothing failed", r.errs)
	}
	used := 0
	for i, c := range r.clients {
		if c.dialErr != nil && !(m.endAt != lsLate && refused(c.dialErr)) {
			return fmt.Sprintf("client %d cannot connect: %v", i, c.dialErr)
		}
		if c.sendErr != nil && m.endAt == lsLate {
			return fmt.Sprintf("client %d cannot write: %v", i, c.sendErr)
		}
		var own []string
		for _, e := range r.got {
			if e.err != nil {
				return fmt.Sprintf("received an error: %v", e.err)
			}
			if f := fields(e.m); f != e.was {
				return fmt.Sprintf("the message %q changed to %q", e.was, f)
			}
			if strings.Contains(e.was, fmt.Sprintf("|h%d|", i)) {
				own = append(own, e.was)
			}
		}
		used += len(own)
		if len(own) > len(c.frames) {
			return fmt.Sprintf("%d messages of client %d, which sent %d", len(own), i, len(c.frames))
		}
		for k, s := range own {
			if w := parsedAlone(c.frames[k]); s != w {
				return fmt.Sprintf("message %d of client %d is received as %q, sent was %q", k, i, s, c.frames[k])
			}
		}
		least := 0
		switch {
		case m.endAt == lsLate:
			least = len(c.frames)
		case m.network == "unixgram" && (m.endAt == lsMid || len(r.got) > 0):
			least = c.before
		case m.network != "unixgram" && c.sock != nil && c.sock.Peer.Accepted:
			least = c.written
			if c.sendErr == nil {
				least = len(c.frames)
			}
		}
		if len(own) < least {
			return fmt.Sprintf("%d of the messages of client %d are received, which wrote %d, %d of them before End (accepted: %v)", len(own), i, c.written, c.before, c.sock != nil && c.sock.Peer.Accepted)
		}
	}
	if used != len(r.got) {
		return fmt.Sprintf("%d messages received, %d of them were sent", len(r.got), used)
	}
	return ""
}

func (m ls) unit() mc.Unit {
	var r *lsRun
	return unit(m.name(), vs.Cfg{Preempt: m.preempt, MaxFires: 60, Lazy: true, MaxSteps: 20000}, m.body(&r), func(o *vs.Outcome) string {
		s := settled(o)
		if s == "" {
			s = m.judge(r)
		}
		if s != "" {
			for i, c := range r.clients {
				s += fmt.Sprintf("\n  client %d: connecting %v, %d of %d frames written, %d before End, %v, closed %v", i, c.dialErr, c.written, len(c.frames), c.before, c.sendErr, c.done)
			}
			for _, e := range r.got {
				s += fmt.Sprintf("\n  received %q %v", e.was, e.err)
			}
		}
		return s
	})
}

// refused tells whether a connection failed because nobody listens any more.
func refused(err error) bool {
	return errors.Is(err, os.ErrNotExist) || errors.Is(err, syscall.ECONNREFUSED)
}

func lsUnits(deep bool) (u []mc.Unit) {
	k := 0
	for _, n := range []string{"unixgram", "unix", "tcp"} {
		for _, e := range []int{lsLate, lsMid, lsAny} {
			for _, c := range [][]int{{}, {1}, {2}, {1, 1}, {3}, {2, 2}} {
				for _, q := range []int{0, 1} {
					for _, slow := range []bool{false, true} {
						m := ls{network: n, t: transports[k%3], clients: c, queue: q, slow: slow, endAt: e, preempt: 2}
						k++
						if deep {
							m.preempt = 3
						}
						if len(c) > 1 {
							m.preempt--
						}
						if !deep && len(c) > 0 && c[0] == 3 && n == "unixgram" {
							m.preempt--
						}
						if !deep && len(c) > 1 && c[0] == 2 && (n == "tcp") == (q == 0) {
							continue
						}
						if n != "unixgram" && len(c) > 0 && c[0] > 1 {
							m.grouped = k%2 == 0
						}
						u = append(u, m.unit())
					}
				}
			}
			if e != lsAny {
				for _, wait := range []time.Duration{time.Second, 31 * time.Second, time.Hour} {
					u = append(u, ls{network: n, t: transports[k%3], clients: []int{2, 2}, endAt: e, wait: wait, preempt: 1}.unit())
				}
			}
			if n == "unixgram" {
				m := ls{network: n, t: transports[k%3], clients: []int{2, 1}, endAt: e, limit: 1, preempt: 1}
				if deep {
					m.clients[0] = 3
				}
				u = append(u, m.unit())
			}
		}
	}
	return
}
