package main

import (
	"errors"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
	"verif/vs/vnet"
)

// ee is a scenario of dialled senders and a receiver on one of the library's listeners, in a virtual network.
type ee struct {
	dial, listen string
	t            *transport // nil: the usual one
	senders      int
	goroutines   int // for each sender
	msgs         int // for each goroutine
	delay        time.Duration
	wait         time.Duration // between two messages of a goroutine
	limit        int           // datagrams that fit in the socket
	queue        int
	preempt      int
	fires        int
}

func (e ee) name() string {
	t := "usual"
	if e.t != nil {
		t = e.t.name
	}
	s := fmt.Sprintf("carry-%s-to-%s-%s-%dx%dx%d-flush%v", e.dial, e.listen, t, e.senders, e.goroutines, e.msgs, e.delay)
	if e.wait > 0 {
		s += "-every" + e.wait.String()
	}
	if e.limit > 0 {
		s += "-limit" + strconv.Itoa(e.limit)
	}
	return fmt.Sprintf("%s-queue%d-preempt%d", s, e.queue, e.preempt)
}

type eeRun struct {
	w     *vnet.World
	lerr  error
	derrs []error
	serrs []error
	rerrs []error
	xerrs []error
	got   []*event
	over  bool
	late  string
}

func (e ee) usual() transport {
	if e.t != nil {
		return *e.t
	}
	if strings.HasPrefix(e.dial, "tcp") {
		return transports[0]
	}
	return transports[1]
}

// number of a message
func (e ee) number(s, g, k int) int { return (s*e.goroutines+g)*e.msgs + k }

func (e ee) body(rp **eeRun) func() {
	return func() {
		r := &eeRun{w: &vnet.World{QueueTo: e.limit}}
		*rp = r
		vnet.Use(r.w)
		path := "127.0.0.1:5514"
		switch e.listen {
		case "unix", "unixgram":
			path = socketPath()
		case "tcp6":
			path = "[::1]:5514"
		}
		var l syslog5424.Listener
		l, r.lerr = syslog5424.GuessListener(e.listen, path)
		if r.lerr != nil {
			return
		}
		u := e.usual()
		rcv, errs := syslog5424.NewReceiver(l, e.queue, u.t)
		over := make(chan int, 1)
		vs.GoH("consumer", func() {
			for {
				msg, err, ok := rcv.Receive()
				if !ok {
					break
				}
				x := &event{m: msg, err: err}
				if err == nil {
					x.was = fields(msg)
				}
				r.got = append(r.got, x)
			}
			r.over = true
			vs.SendTo(over)(1)
		})
		var senders []*syslog5424.Sender
		finished := make(chan int, 16)
		r.serrs = make([]error, e.senders*e.goroutines*e.msgs)
		for i := 0; i < e.senders; i++ {
			var t syslog5424.Transport
			if e.t != nil {
				t = e.t.t
			}
			s, xerrs, err := syslog5424.Dialer{FlushDelay: e.delay}.Dial(e.dial, path, t)
			r.derrs = append(r.derrs, err)
			if err != nil {
				continue
			}
			defer func() { r.xerrs = append(r.xerrs, drain(xerrs)...) }()
			senders = append(senders, s)
			for g := 0; g < e.goroutines; g++ {
				i, g := i, g
				vs.GoH("sending", func() {
					for k := 0; k < e.msgs; k++ {
						if e.wait > 0 && (k > 0 || e.wait > time.Second) {
							vs.Sleep(e.wait)
						}
						n := e.number(i, g, k)
						r.serrs[n] = s.Send(msgs[n])
					}
					vs.SendTo(finished)(1)
				})
			}
		}
		for range senders {
			for g := 0; g < e.goroutines; g++ {
				vs.Recv(finished)
			}
		}
		for _, s := range senders {
			s.End()
		}
		vs.WaitIdle()
		r.rerrs = drain(errs)
		rcv.End()
		vs.Recv(over)
		vs.WaitIdle()
		r.state()
	}
}

//go:norace
func (r *eeRun) state() {
	for _, s := range r.w.Socks {
		s.Look()
		if s.Closed == 0 && !(s.Peer != nil && !s.Accepted && !s.Dialed) {
			r.late = fmt.Sprintf("socket %d is never closed", s.ID)
		}
		if s.Late > 0 {
			r.late = "something is written to a closed connection"
		}
	}
	for _, l := range r.w.Lists {
		if l.Closed == 0 {
			r.late = "the listener is never closed"
		}
	}
}

func (e ee) judge(r *eeRun) string {
	if r.lerr != nil {
		return "the listener cannot be created: " + r.lerr.Error()
	}
	for _, err := range r.derrs {
		if err != nil {
			return "Dial: " + err.Error()
		}
	}
	for _, err := range r.serrs {
		if err != nil {
			return "Send: " + err.Error()
		}
	}
	if r.late != "" {
		return r.late
	}
	if len(r.rerrs)+len(r.xerrs) > 0 {
		return fmt.Sprintf("reported: %v %v, though nothing failed", r.xerrs, r.rerrs)
	}
	u := e.usual()
	frames := map[string]bool{}
	alone := map[string]int{}
	total := e.senders * e.goroutines * e.msgs
	for n := 0; n < total; n++ {
		frames[u.frame(wires[n])] = true
		alone[parsedAlone(wires[n])] = n
	}
	last := map[int]int{}
	seen := map[int]bool{}
	for _, x := range r.got {
		if x.err != nil {
			return fmt.Sprintf("received an error: %v", x.err)
		}
		if f := fields(x.m); f != x.was {
			return fmt.Sprintf("the message %q changed to %q", x.was, f)
		}
		n, ok := alone[x.was]
		if !ok || seen[n] {
			return fmt.Sprintf("%q is received, which was not sent, or once more", x.was)
		}
		seen[n] = true
		g := n / e.msgs
		if n < last[g] {
			return fmt.Sprintf("message %d is received after message %d of the same goroutine", n, last[g])
		}
		last[g] = n
	}
	if len(seen) != total {
		return fmt.Sprintf("%d of %d messages are received", len(seen), total)
	}
	if e.listen == "unixgram" {
		n := 0
		for _, s := range r.w.Socks {
			for _, w := range s.Writes {
				n++
				if !frames[string(w)] {
					return fmt.Sprintf("the datagram %q is not one message", w)
				}
			}
		}
		if n != total {
			return fmt.Sprintf("%d datagrams for %d messages", n, total)
		}
	}
	return ""
}

func (e ee) unit() mc.Unit {
	var r *eeRun
	fires := e.fires
	if fires == 0 {
		fires = 12
	}
	return unit(e.name(), vs.Cfg{Preempt: e.preempt, MaxFires: fires, Lazy: true, MaxSteps: 20000}, e.body(&r), func(o *vs.Outcome) string {
		s := settled(o)
		if s == "" {
			s = e.judge(r)
		}
		if s != "" {
			for _, x := range r.got {
				s += fmt.Sprintf("\n  received %q %v", x.was, x.err)
			}
		}
		return s
	})
}

// ways to connect: the network dialled and the one listened on.
var eeWays = [][2]string{{"unix", "unix"}, {"unixgram", "unixgram"}, {"local", "unix"}, {"local", "unixgram"}, {"tcp", "tcp"}, {"tcp4", "tcp4"}, {"tcp6", "tcp6"}, {"tcp", "tcp4"}}

// --- connecting

// answers of an address of a host
const (
	aServed = iota
	aRefused
	aUnreachable
	aTimeout
)

// tcpHost is one name and what connecting to its addresses does.
type tcpHost struct {
	ips  []net.IPAddr
	does []int
}

type tcpRun struct {
	w     *vnet.World
	h     tcpHost
	fresh bool
	conn  bool
	null  bool
	err   error
	werr  error
	cerr  error
	n     int
	live  int // sockets open between connection and close
	bad   string
	who   *vnet.Sock
	state string
}

type form struct {
	addr string
	port int // -1: to be refused
}

// tcpBody connects to a host whose addresses are chosen among all lists up to some length.
// It does so times times with the same connector; the addresses are other ones each time.
func tcpBody(network string, f form, most, times int, rp *[]*tcpRun) func() {
	return func() {
		*rp = nil
		c := syslog5424.TCPConnector(network, f.addr)
		for i := 0; i < times; i++ {
			r := &tcpRun{w: &vnet.World{}}
			*rp = append(*rp, r)
			if !r.connects(c, f, most, 10*i) {
				return
			}
		}
	}
}

// connects tells whether there was something to try.
func (r *tcpRun) connects(connector syslog5424.Connector, f form, most, from int) bool {
	{
		vnet.Use(r.w)
		n := vs.Choose(nil, most+2, 0, "addresses")
		known := n <= most
		literal := !strings.HasPrefix(f.addr, "host")
		if literal {
			n, known = 1, true
		}
		dialled := map[string]int{}
		for i := 0; i < n && known; i++ {
			v6 := vs.Choose(nil, 2, 0, "version")
			does := vs.Choose(nil, 4, 0, "answer")
			a := net.IPAddr{IP: net.IPv4(192, 0, 2, byte(1+from+i))}
			switch {
			case literal && f.addr[0] != '[':
				if v6 == 1 {
					return false
				}
				a.IP = net.ParseIP("192.0.2.1")
			case literal:
				if v6 == 0 {
					return false
				}
				a.IP = net.ParseIP("2001:db8::1")
			case v6 == 0 && i == 1:
				a.IP = a.IP.To4()
			case v6 == 1:
				a.IP = net.ParseIP("2001:db8::" + strconv.Itoa(1+from+i))
				if i == 1 {
					a = net.IPAddr{IP: net.ParseIP("fe80::" + strconv.Itoa(2+from)), Zone: "eth0"}
				}
			}
			r.h.ips = append(r.h.ips, a)
			r.h.does = append(r.h.does, does)
			key := net.JoinHostPort(a.IP.String(), strconv.Itoa(f.port))
			dialled[key] = i
			if does == aServed && f.port >= 0 {
				vnet.Served("tcp", key)
			}
		}
		if known && !literal {
			r.w.Hosts = map[string][]net.IPAddr{"host": r.h.ips}
		}
		r.fresh = true
		r.w.OnDial = func(network, raddr string) error {
			i, ok := dialled[raddr]
			if !ok {
				r.bad = "it dials " + raddr
				return syscall.ECONNREFUSED
			}
			switch r.h.does[i] {
			case aUnreachable:
				return os.NewSyscallError("connect", syscall.ENETUNREACH)
			case aTimeout:
				return timeout{}
			}
			return nil
		}
		var c syslog5424.WriteCloser
		c, r.err = connector.Connect()
		r.conn, r.null = c != nil, usableNot(c)
		if r.err != nil || r.null {
			r.open()
			return true
		}
		r.n, r.werr = c.Write([]byte("hello"))
		r.open()
		r.cerr = c.Close()
		r.closed()
	}
	return true
}

func usableNot(c syslog5424.WriteCloser) bool {
	switch v := c.(type) {
	case nil:
		return true
	case *vnet.TCPConn:
		return v == nil
	case *vnet.UnixConn:
		return v == nil
	}
	return false
}

//go:norace
func (r *tcpRun) open() {
	for _, s := range r.w.Socks {
		if s.Dialed {
			s.Look()
			if s.Closed == 0 {
				r.live++
				r.who = s
			}
			r.state += fmt.Sprintf(" %s closed %d wrote %q", s.Path, s.Closed, s.Writes)
		}
	}
}

//go:norace
func (r *tcpRun) closed() {
	for _, s := range r.w.Socks {
		if s.Dialed {
			s.Look()
			if s.Closed != 1 && r.bad == "" {
				r.bad = fmt.Sprintf("the socket of %s is closed %d times", s.Path, s.Closed)
			}
		}
	}
}

func tcpJudge(network string, f form, r *tcpRun) string {
	if !r.fresh {
		return ""
	}
	can := false
	where := map[string]bool{}
	for i, ip := range r.h.ips {
		is4 := ip.IP.To4() != nil
		if f.port >= 0 && r.h.does[i] == aServed && (network == "tcp" || is4 == (network == "tcp4")) {
			can = true
			where[net.JoinHostPort(ip.IP.String(), strconv.Itoa(f.port))] = true
		}
	}
	switch {
	case r.bad != "":
		return r.bad
	case r.err != nil && !r.null:
		return fmt.Sprintf("a connection and the error %v", r.err)
	case r.err == nil && r.null:
		return "neither a connection nor an error"
	case can != (r.err == nil):
		return fmt.Sprintf("connected %v, error %v", r.err == nil, r.err)
	case r.err != nil && r.live > 0:
		return "a socket is left open"
	case r.err != nil:
		return ""
	case r.live != 1:
		return fmt.Sprintf("%d open sockets", r.live)
	case !where[r.who.Path]:
		return "connected to " + r.who.Path
	case r.werr != nil || r.n != 5 || r.cerr != nil:
		return fmt.Sprintf("writing gives %d, %v, closing %v", r.n, r.werr, r.cerr)
	}
	if b := wrote(r.who); b != "hello" {
		return fmt.Sprintf("%q was written", b)
	}
	return ""
}

//go:norace
func wrote(s *vnet.Sock) (b string) {
	for _, w := range s.Writes {
		b += string(w)
	}
	return
}

func tcpUnit(network string, f form, most, times int) mc.Unit {
	var l []*tcpRun
	return unit(fmt.Sprintf("answers-%s-%s-%d-%d", network, f.addr, most, times), vs.Cfg{Preempt: 0, MaxSteps: 5000}, tcpBody(network, f, most, times, &l), func(o *vs.Outcome) string {
		s := settled(o)
		for i, r := range l {
			if s == "" {
				s = tcpJudge(network, f, r)
			}
			if s != "" {
				return fmt.Sprintf("network %s address %s, connect %d, addresses %v, answers %v: %s (sockets:%s)", network, f.addr, i, r.h.ips, r.h.does, s, r.state)
			}
		}
		return s
	})
}

// --- the usual sockets of the system

var usualPaths = []string{"/var/run/syslog", "/var/run/log", "/dev/log"}

type guessRun struct {
	steps []guessStep
	log   string
	bad   string
}

type guessStep struct{ state [3]int }

// what is at a path
const (
	gNothing = iota
	gStream
	gDatagram
)

var gNames = []string{"nothing", "a stream socket", "a datagram socket"}

// guessBody connects to the usual sockets, twice; in between, what is there may change.
func guessBody(network string, times int, rp **guessRun) func() {
	return func() {
		r := &guessRun{}
		*rp = r
		c := syslog5424.LocalConnector(network, "")
		first, kind := "", 0
		for k := 0; k < times; k++ {
			w := &vnet.World{}
			vnet.Use(w)
			var st [3]int
			live := map[string]int{}
			any := 0
			for i, p := range usualPaths {
				st[i] = vs.Choose(nil, 3, 0, "socket")
				switch st[i] {
				case gStream:
					vnet.Served("unix", p)
				case gDatagram:
					vnet.Served("unixgram", p)
				default:
					continue
				}
				live[p] = st[i]
				if network == "" || network == "unix" && st[i] == gStream || network == "unixgram" && st[i] == gDatagram {
					any++
				}
			}
			r.log += fmt.Sprintf("\n  there are %s, %s, %s:", gNames[st[0]], gNames[st[1]], gNames[st[2]])
			conn, err := c.Connect()
			null := usableNot(conn)
			var s *vnet.Sock
			open := 0
			for _, x := range w.Socks {
				if dialledSock(x) && closes(x) == 0 {
					s = x
					open++
				}
			}
			if s != nil {
				r.log += " connected to " + s.Path
			}
			r.log += fmt.Sprintf(" error %v", err)
			switch {
			case err == nil && null:
				r.bad = "neither a connection nor an error"
			case err != nil && conn != nil && !null:
				r.bad = "a connection and an error"
			case err != nil && open > 0 || open > 1:
				r.bad = "a socket is left open"
			case err != nil && any > 0 && (k == 0 || live[first] == kind):
				r.bad = "no connection"
			case err == nil && s == nil:
				r.bad = "the connection is none"
			}
			if r.bad != "" {
				return
			}
			if err != nil {
				continue
			}
			if first == "" {
				first, kind = s.Path, live[s.Path]
			}
			for _, m := range []string{"hello", "good bye"} {
				n, err := conn.Write([]byte(m))
				if err != nil || n != len(m) {
					r.bad = fmt.Sprintf("writing gives %d, %v", n, err)
					return
				}
			}
			if err := conn.Close(); err != nil {
				r.bad = "closing: " + err.Error()
				return
			}
			want := []string{"hello", "good bye"}
			if st := sockWrites(s); strings.Join(st, "|") != strings.Join(want, "|") || closes(s) != 1 {
				r.bad = fmt.Sprintf("written: %q, closed %d times", st, closes(s))
				return
			}
		}
	}
}

//go:norace
func dialledSock(s *vnet.Sock) bool { return s.Dialed }

//go:norace
func closes(s *vnet.Sock) int { s.Look(); return s.Closed }

//go:norace
func sockWrites(s *vnet.Sock) (l []string) {
	for _, w := range s.Writes {
		l = append(l, string(w))
	}
	return
}

func guessUnit(network string, times int) mc.Unit {
	var r *guessRun
	return unit(fmt.Sprintf("usual-%q-%d", network, times), vs.Cfg{Preempt: 0, MaxSteps: 5000}, guessBody(network, times, &r), func(o *vs.Outcome) string {
		s := settled(o)
		if s == "" && r.bad != "" {
			s = fmt.Sprintf("network %q, no address: %s%s", network, r.bad, r.log)
		}
		return s
	})
}

// --- closing the library's listeners while clients connect and Accept waits

type lc struct {
	network string
	accepts int // goroutines that accept
	dials   int
	preempt int
}

type lcRun struct {
	w     *vnet.World
	path  string
	lerr  error
	cerr  error
	again error
	derrs []error
	after []error // of accepting when all is over
	acc   int
	bad   string
	gone  bool
}

func (m lc) body(rp **lcRun) func() {
	return func() {
		r := &lcRun{w: &vnet.World{}}
		*rp = r
		vnet.Use(r.w)
		r.path = "127.0.0.1:5514"
		if m.network == "unix" || m.network == "unixgram" {
			r.path = socketPath()
		}
		var l syslog5424.Listener
		if l, r.lerr = syslog5424.GuessListener(m.network, r.path); r.lerr != nil {
			return
		}
		done := make(chan int, 8)
		turn := make(chan int, 1)
		vs.SendTo(turn)(1)
		for i := 0; i < m.accepts; i++ {
			vs.GoH("accept", func() {
				c, err := l.Accept()
				if err == nil {
					vs.Recv(turn)
					r.acc++
					vs.SendTo(turn)(1)
					if c == nil {
						r.bad = "Accept gives nothing"
					} else {
						c.Close()
					}
				}
				vs.SendTo(done)(1)
			})
		}
		r.derrs = make([]error, m.dials)
		for i := 0; i < m.dials; i++ {
			i := i
			vs.GoH("client", func() {
				o, _, err := dialWorld(m.network, r.path)
				if err == nil {
					o.Close()
				}
				r.derrs[i] = err
				vs.SendTo(done)(1)
			})
		}
		r.cerr = l.Close()
		for i := 0; i < m.accepts+m.dials; i++ {
			vs.Recv(done)
		}
		vs.WaitIdle()
		o, _, err := dialWorld(m.network, r.path)
		r.again = err
		if o != nil {
			o.Close()
		}
		if m.network == "unix" {
			_, err := os.Lstat(r.path)
			r.gone = errors.Is(err, os.ErrNotExist)
		}
		r.look()
	}
}

//go:norace
func (r *lcRun) look() {
	for _, l := range r.w.Lists {
		if l.Closed == 0 {
			r.bad = "the listening socket is never closed"
		}
	}
	for _, s := range r.w.Socks {
		s.Look()
		if !s.Dialed && s.Closed == 0 && (s.Peer == nil || s.Accepted) {
			r.bad = "a socket is never closed"
		}
	}
}

func (m lc) judge(r *lcRun) string {
	switch {
	case r.lerr != nil:
		return "the listener cannot be created: " + r.lerr.Error()
	case r.cerr != nil:
		return "Close: " + r.cerr.Error()
	case r.bad != "":
		return r.bad
	case r.again == nil:
		return "connecting still succeeds after Close"
	case m.network == "unix" && !r.gone:
		return "the socket file remains"
	}
	for _, err := range r.derrs {
		if err != nil && !refused(err) {
			return "connecting: " + err.Error()
		}
	}
	return ""
}

func (m lc) unit() mc.Unit {
	var r *lcRun
	return unit(fmt.Sprintf("close-%s-accepts%d-dials%d-preempt%d", m.network, m.accepts, m.dials, m.preempt), vs.Cfg{Preempt: m.preempt, MaxFires: 10, Lazy: true, MaxSteps: 5000}, m.body(&r), func(o *vs.Outcome) string {
		s := settled(o)
		if s == "" {
			s = m.judge(r)
		}
		return s
	})
}

func init() {
	reg(&mc.Property{ID: "C23", Assume: trust,
		Bounds: func(deep bool) string {
			return "in a virtual network: 8 ways to connect x the usual and 3 transports, 1 or 2 dialled senders with 1 or 2 sending goroutines of 1 to 3 messages each, periodic flushes in virtual time or none, up to an hour between messages, no limit or 1 to 2 datagrams waiting in the socket; all schedules with at most 1 or 2 preemptions (thorough: 2 or 3)"
		},
		Units: func(deep bool) (u []mc.Unit) {
			k := 0
			for _, w := range eeWays {
				for t := -1; t < len(transports); t++ {
					add := func(e ee) {
						e.dial, e.listen = w[0], w[1]
						if t >= 0 {
							e.t = &transports[t]
						}
						e.queue = k % 2
						if deep {
							e.preempt++
						}
						k++
						u = append(u, e.unit())
					}
					add(ee{senders: 1, goroutines: 1, msgs: 3, preempt: 2})
					add(ee{senders: 1, goroutines: 2, msgs: 1, preempt: 1})
					add(ee{senders: 2, goroutines: 1, msgs: 1, preempt: 1})
					add(ee{senders: 1, goroutines: 1, msgs: 2, delay: 400 * time.Millisecond, preempt: 1})
					add(ee{senders: 1, goroutines: 1, msgs: 3, delay: 400 * time.Millisecond, wait: 400 * time.Millisecond, preempt: 1})
					add(ee{senders: 1, goroutines: 1, msgs: 2, delay: 7 * time.Second, wait: 31 * time.Second, fires: 40, preempt: 0})
					add(ee{senders: 1, goroutines: 1, msgs: 3, delay: 20 * time.Minute, wait: time.Hour, fires: 40, preempt: 0})
					if w[1] == "unixgram" {
						add(ee{senders: 1, goroutines: 1, msgs: 3, limit: 1, preempt: 1})
						add(ee{senders: 1, goroutines: 2, msgs: 2, limit: 2, preempt: 0})
						add(ee{senders: 2, goroutines: 1, msgs: 2, limit: 1, preempt: 0})
					}
				}
			}
			return
		}})
	reg(&mc.Property{ID: "C24", Assume: append([]string{"the operations of a listener and of connecting that block are those of the virtual network"}, trust...),
		Bounds: func(deep bool) string {
			n := 3
			if deep {
				n = 5
			}
			return fmt.Sprintf("in a virtual network: 3 TCP networks x 12 forms of addresses x every list of up to %d addresses of the host (versions 4 and 6; served, refused, unreachable, timing out), and unknown hosts, twice with other lists of up to %d; local connectors without address x 27 states of the three usual sockets, twice; closing listeners while up to 2 goroutines accept and up to 2 clients connect, all schedules with at most 2 preemptions (thorough: 3)", n, n-2)
		},
		Units: func(deep bool) (u []mc.Unit) {
			most, pre := 3, 2
			if deep {
				most, pre = 5, 3
			}
			for _, n := range []string{"tcp", "tcp4", "tcp6"} {
				for _, f := range []form{{"host:", 514}, {"host:6514", 6514}, {"host:1", 1}, {"host:65535", 65535}} {
					u = append(u, tcpUnit(n, f, most, 1), tcpUnit(n, f, most-2, 2))
				}
				for _, f := range []form{{"host:65536", -1}, {"host:-1", -1}, {"host:5 14", -1}, {"host", -1}} {
					u = append(u, tcpUnit(n, f, 1, 2))
				}
				for _, f := range []form{{"192.0.2.1:", 514}, {"192.0.2.1:601", 601}, {"[2001:db8::1]:", 514}, {"[2001:db8::1]:601", 601}} {
					u = append(u, tcpUnit(n, f, 1, 2))
				}
			}
			for _, n := range []string{"", "unix", "unixgram"} {
				u = append(u, guessUnit(n, 1), guessUnit(n, 2))
			}
			for _, n := range []string{"unix", "unixgram", "tcp", "tcp4"} {
				for a := 0; a < 3; a++ {
					for d := 0; d < 3; d++ {
						if n == "unixgram" && a > 1 {
							continue
						}
						u = append(u, lc{network: n, accepts: a, dials: d, preempt: pre}.unit())
					}
				}
			}
			return
		}})
}
