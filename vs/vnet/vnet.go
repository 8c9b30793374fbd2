// Package vnet stands in for net in the instrumented sources: local stream and datagram sockets and TCP connections
// that exist only inside the controlled scheduler. Everything else is the real package.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	"verif/vs"
)

// World is the network of one execution. The harness fills it in before the code under test uses it.
type World struct {
	Hosts   map[string][]net.IPAddr // names; literal addresses need no entry
	OnDial  func(network, raddr string) error
	OnWrite func(s *Sock, b []byte) (int, error) // what a write does: bytes taken (-1: all) and the error
	QueueTo int                                  // datagrams waiting in a socket, 0: no limit
	Socks   []*Sock                              // every connection and datagram socket, in order of creation
	Lists   []*Lst
	names   []named
	port    int
	_       int64
}

// named is what is bound to a name: a *Sock (datagrams) or a *Lst.
type named struct {
	name string
	x    interface{}
}

// at is what is bound to a name. (A map would be seen by the race detector.)
//
//go:norace
func (w *World) at(name string) interface{} {
	for i := range w.names {
		if w.names[i].name == name {
			return w.names[i].x
		}
	}
	return nil
}

//go:norace
func (w *World) bind(name string, x interface{}) {
	for i := range w.names {
		if w.names[i].name == name {
			w.names[i].x = x
			return
		}
	}
	w.names = append(w.names, named{name, x})
}

var world *World

// Use makes w the network of the following operations.
//
//go:norace
func Use(w *World) {
	if w != nil && w.port == 0 {
		w.port = 40000
	}
	world = w
}

var errNoWorld = errors.New("vnet: there is no network here")

// dir is what can be read from a socket.
type dir struct {
	buf    []byte
	q      [][]byte
	dgram  bool
	limit  int
	rshut  bool  // nothing will be read
	wshut  bool  // nothing more will be written
	rclose bool  // the reading socket is closed
	rdl    int64 // deadline
	reset  error
}

// Sock is a connection, or one end of it, or a datagram socket.
type Sock struct {
	ID       int
	Net      string
	Dialed   bool
	Accepted bool
	Path     string
	Peer     *Sock
	Closed   int      // calls of Close
	Writes   [][]byte // what each system call wrote
	Late     int      // writes after Close
	local    net.Addr
	remote   net.Addr
	in       *dir
	out      *dir // nil: not connected
	wclose   bool // these belong to operations on out
	wdl      int64
}

// Lst is a listening socket.
type Lst struct {
	Net    string
	Path   string
	Closed int // calls of Close
	local  net.Addr
	q      []*Sock
	closed bool
	dl     int64
	unlink bool
}

const (
	notReady = -1
	isReady  = 0
	timedOut = 1
)

// await is an operation on obj performed when ready says so.
//
//go:norace
func await(obj unsafe.Pointer, label string, w vs.Waiter) int {
	return vs.Await(obj, w, label)
}

type always struct{}

//go:norace
func (always) Ready() int { return isReady }

type canRead struct{ d *dir }

//go:norace
func (w canRead) Ready() int {
	d := w.d
	switch {
	case d.rclose:
		return isReady
	case d.rdl != 0 && vs.Clock() >= d.rdl:
		return timedOut
	case len(d.buf) > 0 || len(d.q) > 0 || d.wshut || d.rshut || d.reset != nil:
		return isReady
	}
	return notReady
}

type canWrite struct {
	s *Sock
	d *dir
}

//go:norace
func (w canWrite) Ready() int {
	d := w.d
	switch {
	case w.s.wclose:
		return isReady
	case w.s.wdl != 0 && vs.Clock() >= w.s.wdl:
		return timedOut
	case d.dgram && d.limit > 0 && len(d.q) >= d.limit && !d.rclose && !d.rshut:
		return notReady
	}
	return isReady
}

type canAccept struct{ l *Lst }

//go:norace
func (w canAccept) Ready() int {
	switch {
	case w.l.closed:
		return isReady
	case w.l.dl != 0 && vs.Clock() >= w.l.dl:
		return timedOut
	case len(w.l.q) > 0:
		return isReady
	}
	return notReady
}

func clone(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

// into is a copy the race detector sees, of bytes it did not see.
func into(b, from []byte) int { return copy(b, from) }

//go:norace
func fill(b, from []byte) int {
	if len(from) > len(b) {
		from = from[:len(b)]
	}
	return into(b, put(nil, from))
}

// put appends unseen by the race detector.
//
//go:norace
func put(to, from []byte) []byte {
	for i := range from {
		to = append(to, from[i])
	}
	return to
}
func sys(op string, e error) error { return os.NewSyscallError(op, e) }

//go:norace
func (s *Sock) fail(op string, err error) error {
	return &net.OpError{Op: op, Net: s.Net, Source: s.local, Addr: s.remote, Err: err}
}

//go:norace
func (s *Sock) read(b []byte) (int, error) {
	if s == nil {
		return 0, syscall.EINVAL
	}
	d := s.in
	switch await(unsafe.Pointer(d), "read", canRead{d}) {
	case timedOut:
		return 0, s.fail("read", os.ErrDeadlineExceeded)
	}
	if d.rclose {
		return 0, s.fail("read", net.ErrClosed)
	}
	if d.dgram {
		if len(d.q) == 0 { // shut down
			return 0, nil
		}
		p := d.q[0]
		d.q = d.q[1:]
		return fill(b, p), nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(d.buf) > 0 {
		n := fill(b, d.buf)
		d.buf = d.buf[n:]
		return n, nil
	}
	if d.reset != nil {
		return 0, s.fail("read", d.reset)
	}
	return 0, io.EOF
}

//go:norace
func (s *Sock) write(call string, b []byte) (int, error) {
	return s.writeTo(s.out, call, b)
}

//go:norace
func (s *Sock) writeTo(d *dir, call string, b []byte) (int, error) {
	if d == nil {
		return 0, s.fail("write", sys(call, syscall.ENOTCONN))
	}
	p := clone(b)
	n, err := -1, error(nil)
	if world != nil && world.OnWrite != nil {
		n, err = world.OnWrite(s, p)
	}
	if n >= 0 && n < len(p) {
		p = p[:n]
	}
	r := await(unsafe.Pointer(d), "write", canWrite{s, d})
	switch {
	case s.wclose:
		s.Late++
		return 0, s.fail("write", net.ErrClosed)
	case r == timedOut:
		return 0, s.fail("write", os.ErrDeadlineExceeded)
	case d.wshut, d.rshut:
		return 0, s.fail("write", sys(call, syscall.EPIPE))
	case d.rclose && d.dgram:
		return 0, s.fail("write", sys(call, syscall.ECONNREFUSED))
	case d.rclose:
		return 0, s.fail("write", sys(call, syscall.EPIPE))
	}
	if err == nil || len(p) > 0 {
		s.Writes = append(s.Writes, p)
		if d.dgram {
			d.q = append(d.q, p)
		} else {
			d.buf = put(d.buf, p)
		}
	}
	if err != nil {
		return len(p), err
	}
	return len(p), nil
}

//go:norace
func (s *Sock) close() error {
	if s == nil {
		return syscall.EINVAL
	}
	await(unsafe.Pointer(s.in), "close", always{})
	s.Closed++
	again := s.in.rclose
	s.in.rclose = true
	if s.out != nil {
		await(unsafe.Pointer(s.out), "close", always{})
		s.wclose = true
		if !s.out.dgram {
			s.out.wshut = true
		}
	}
	if again {
		return s.fail("close", net.ErrClosed)
	}
	return nil
}

//go:norace
func (s *Sock) shut(rd, wr bool) error {
	if s == nil {
		return syscall.EINVAL
	}
	if rd {
		await(unsafe.Pointer(s.in), "shutdown", always{})
		if s.in.rclose {
			return s.fail("close", net.ErrClosed)
		}
		s.in.rshut = true
	}
	if wr {
		if s.out == nil {
			return nil
		}
		await(unsafe.Pointer(s.out), "shutdown", always{})
		if s.wclose {
			return s.fail("close", net.ErrClosed)
		}
		if s.out.dgram {
			s.out = &dir{dgram: true, wshut: true}
		} else {
			s.out.wshut = true
		}
	}
	return nil
}

//go:norace
func (s *Sock) deadline(t time.Time, rd, wr bool) error {
	if s == nil {
		return syscall.EINVAL
	}
	dl := int64(0)
	if !t.IsZero() {
		dl = t.UnixNano()
	}
	if rd {
		await(unsafe.Pointer(s.in), "deadline", always{})
		if s.in.rclose {
			return s.fail("set", net.ErrClosed)
		}
		s.in.rdl = dl
	}
	if wr && s.out != nil {
		await(unsafe.Pointer(s.out), "deadline", always{})
		if s.wclose {
			return s.fail("set", net.ErrClosed)
		}
		s.wdl = dl
	}
	wakeAt(dl)
	return nil
}

//go:norace
func wakeAt(dl int64) {
	if d := dl - vs.Clock(); dl != 0 && d > 0 {
		vs.NewTimer(time.Duration(d), 0, nil, nil)
	}
}

//go:norace
func (s *Sock) option() error {
	if s == nil {
		return syscall.EINVAL
	}
	vs.Point(unsafe.Pointer(s.in), "option")
	if s.in.rclose {
		return s.fail("set", net.ErrClosed)
	}
	return nil
}

//go:norace
func newSock(network string, local, remote net.Addr) *Sock {
	s := &Sock{ID: len(world.Socks), Net: network, local: local, remote: remote, in: &dir{dgram: network == "unixgram"}}
	world.Socks = append(world.Socks, s)
	return s
}

//go:norace
func pair(network string, clocal, slocal net.Addr) (c, s *Sock) {
	c = newSock(network, clocal, slocal)
	s = newSock(network, slocal, clocal)
	c.Dialed = true
	c.Peer, s.Peer = s, c
	c.out, s.out = s.in, c.in
	return
}

// --- dialling

func dialErr(network string, raddr net.Addr, err error) error {
	return &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: err}
}

//go:norace
func dialUnix(network string, laddr, raddr *net.UnixAddr) (*Sock, error) {
	switch network {
	case "unix", "unixgram", "unixpacket":
	default:
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: net.UnknownNetworkError(network)}
	}
	if world == nil || !vs.Active() {
		return nil, dialErr(network, raddr, errNoWorld)
	}
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	vs.Point(unsafe.Pointer(world), "dial")
	if world.OnDial != nil {
		if err := world.OnDial(network, raddr.Name); err != nil {
			return nil, dialErr(network, raddr, err)
		}
	}
	switch t := world.at("unix " + raddr.Name).(type) {
	case *Sock:
		if network != "unixgram" {
			return nil, dialErr(network, raddr, sys("connect", syscall.EPROTOTYPE))
		}
		await(unsafe.Pointer(t.in), "connect", always{})
		if t.in.rclose {
			return nil, dialErr(network, raddr, sys("connect", syscall.ECONNREFUSED))
		}
		c := newSock(network, &net.UnixAddr{Net: network}, raddr)
		c.Dialed, c.Path = true, raddr.Name
		c.Peer = t
		c.out = t.in
		return c, nil
	case *Lst:
		if network != "unix" {
			return nil, dialErr(network, raddr, sys("connect", syscall.EPROTOTYPE))
		}
		await(unsafe.Pointer(t), "connect", always{})
		if t.closed {
			return nil, dialErr(network, raddr, sys("connect", syscall.ECONNREFUSED))
		}
		c, s := pair(network, &net.UnixAddr{Net: network}, t.local)
		c.Path = raddr.Name
		t.q = append(t.q, s)
		return c, nil
	}
	if _, err := os.Lstat(raddr.Name); err == nil {
		return nil, dialErr(network, raddr, sys("connect", syscall.ECONNREFUSED))
	}
	return nil, dialErr(network, raddr, sys("connect", syscall.ENOENT))
}

//go:norace
func tcpKey(ip net.IP, port int) string {
	return "tcp " + net.JoinHostPort(ip.String(), strconv.Itoa(port))
}

//go:norace
func dialTCP(network string, laddr, raddr *net.TCPAddr) (*Sock, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: net.UnknownNetworkError(network)}
	}
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	if world == nil || !vs.Active() {
		return nil, dialErr(network, raddr, errNoWorld)
	}
	ip := raddr.IP
	if len(ip) == 0 || ip.IsUnspecified() {
		ip = net.IPv4(127, 0, 0, 1)
		if network == "tcp6" {
			ip = net.IPv6loopback
		}
	}
	if is4 := ip.To4() != nil; network == "tcp4" && !is4 || network == "tcp6" && is4 {
		return nil, dialErr(network, raddr, &net.AddrError{Err: "non-matching address", Addr: ip.String()})
	}
	if raddr.Port < 0 || raddr.Port > 65535 {
		return nil, dialErr(network, raddr, &net.AddrError{Err: "invalid port", Addr: strconv.Itoa(raddr.Port)})
	}
	vs.Point(unsafe.Pointer(world), "dial")
	key := tcpKey(ip, raddr.Port)
	if world.OnDial != nil {
		if err := world.OnDial(network, key[4:]); err != nil {
			return nil, dialErr(network, raddr, err)
		}
	}
	t, _ := world.at(key).(*Lst)
	if t == nil {
		for _, any := range []string{"0.0.0.0", "[::]"} {
			if l, _ := world.at("tcp " + any + ":" + strconv.Itoa(raddr.Port)).(*Lst); l != nil && (l.Net == "tcp" || (l.Net == "tcp4") == (ip.To4() != nil)) {
				t = l
			}
		}
	}
	if t == nil {
		return nil, dialErr(network, raddr, sys("connect", syscall.ECONNREFUSED))
	}
	await(unsafe.Pointer(t), "connect", always{})
	if t.closed {
		return nil, dialErr(network, raddr, sys("connect", syscall.ECONNREFUSED))
	}
	world.port++
	c, s := pair("tcp", &net.TCPAddr{IP: ip, Port: world.port}, &net.TCPAddr{IP: ip, Port: raddr.Port, Zone: raddr.Zone})
	c.Path = key[4:]
	t.q = append(t.q, s)
	return c, nil
}

// --- listening

//go:norace
func bind(l *net.UnixAddr, network string, x interface{}) error {
	if world == nil || !vs.Active() {
		return &net.OpError{Op: "listen", Net: network, Addr: l, Err: errNoWorld}
	}
	vs.Point(unsafe.Pointer(world), "bind")
	if err := syscall.Mknod(l.Name, syscall.S_IFSOCK|0o755, 0); err != nil {
		if err == syscall.EEXIST {
			err = syscall.EADDRINUSE
		}
		return &net.OpError{Op: "listen", Net: network, Addr: l, Err: sys("bind", err)}
	}
	world.bind("unix "+l.Name, x)
	return nil
}

// Served makes a datagram socket or a stream listener of the harness at a path that is not looked for in the file system.
//
//go:norace
func Served(network, name string) {
	switch network {
	case "unixgram":
		s := newSock(network, &net.UnixAddr{Name: name, Net: network}, nil)
		world.bind("unix "+name, s)
	case "unix":
		l := &Lst{Net: network, Path: name, local: &net.UnixAddr{Name: name, Net: network}}
		world.Lists = append(world.Lists, l)
		world.bind("unix "+name, l)
	default:
		h, p, err := net.SplitHostPort(name)
		if err != nil {
			panic(err)
		}
		port, _ := strconv.Atoi(p)
		l := &Lst{Net: network, Path: name, local: &net.TCPAddr{IP: net.ParseIP(h), Port: port}}
		world.Lists = append(world.Lists, l)
		world.bind(tcpKey(net.ParseIP(h), port), l)
	}
}

// Received is what can be read from a socket; for a listener of the harness, from the n-th connection to it.
//
//go:norace
func (s *Sock) Received() ([]byte, [][]byte) { return s.in.buf, s.in.q }

// Look is a visible operation on both directions of a socket.
//
//go:norace
func (s *Sock) Look() {
	if vs.Active() {
		await(unsafe.Pointer(s.in), "look", always{})
		if s.out != nil {
			await(unsafe.Pointer(s.out), "look", always{})
		}
	}
}

// Ended tells whether the other side closed its end.
//
//go:norace
func (s *Sock) Ended() bool { return s.in.wshut }

// Pending are the connections that were not accepted.
//
//go:norace
func (l *Lst) Pending() []*Sock { return l.q }

//go:norace
func (l *Lst) accept() (*Sock, error) {
	if l == nil {
		return nil, syscall.EINVAL
	}
	r := await(unsafe.Pointer(l), "accept", canAccept{l})
	switch {
	case l.closed:
		return nil, &net.OpError{Op: "accept", Net: l.Net, Addr: l.local, Err: net.ErrClosed}
	case r == timedOut:
		return nil, &net.OpError{Op: "accept", Net: l.Net, Addr: l.local, Err: os.ErrDeadlineExceeded}
	}
	s := l.q[0]
	l.q = l.q[1:]
	s.Accepted = true
	return s, nil
}

//go:norace
func (l *Lst) close() error {
	if l == nil {
		return syscall.EINVAL
	}
	await(unsafe.Pointer(l), "close listener", always{})
	l.Closed++
	if l.closed {
		return &net.OpError{Op: "close", Net: l.Net, Addr: l.local, Err: net.ErrClosed}
	}
	l.closed = true
	q := l.q
	l.q = nil
	for _, s := range q {
		await(unsafe.Pointer(s.in), "close", always{})
		s.in.rclose = true
		await(unsafe.Pointer(s.out), "close", always{})
		s.out.wshut = true
		s.out.reset = sys("read", syscall.ECONNRESET)
	}
	vs.Point(unsafe.Pointer(world), "unbind")
	if l.unlink {
		os.Remove(l.Path)
	}
	if world.at("unix "+l.Path) == interface{}(l) {
		world.bind("unix "+l.Path, nil)
	}
	if a, ok := l.local.(*net.TCPAddr); ok && world.at(tcpKey(a.IP, a.Port)) == interface{}(l) {
		world.bind(tcpKey(a.IP, a.Port), nil)
	}
	return nil
}

//go:norace
func (l *Lst) deadline(t time.Time) error {
	if l == nil {
		return syscall.EINVAL
	}
	dl := int64(0)
	if !t.IsZero() {
		dl = t.UnixNano()
	}
	await(unsafe.Pointer(l), "deadline", always{})
	if l.closed {
		return &net.OpError{Op: "set", Net: l.Net, Addr: l.local, Err: net.ErrClosed}
	}
	l.dl = dl
	wakeAt(dl)
	return nil
}

// --- the types of package net

type (
	UnixConn     struct{ s *Sock }
	TCPConn      struct{ s *Sock }
	UnixListener struct{ l *Lst }
	TCPListener  struct{ l *Lst }
	Buffers      [][]byte
	Resolver     struct {
		PreferGo     bool
		StrictErrors bool
		Dial         func(ctx context.Context, network, address string) (net.Conn, error)
	}
	Dialer struct {
		Timeout         time.Duration
		Deadline        time.Time
		LocalAddr       net.Addr
		DualStack       bool
		FallbackDelay   time.Duration
		KeepAlive       time.Duration
		KeepAliveConfig net.KeepAliveConfig
		Resolver        *Resolver
		Cancel          <-chan struct{}
		Control         func(network, address string, c syscall.RawConn) error
		ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
	}
	ListenConfig struct {
		Control         func(network, address string, c syscall.RawConn) error
		KeepAlive       time.Duration
		KeepAliveConfig net.KeepAliveConfig
	}
)

// DefaultResolver is as in package net.
var DefaultResolver = &Resolver{}

var errUnsupported = errors.New("vnet: not supported")

func (c *UnixConn) sock() *Sock {
	if c == nil {
		return nil
	}
	return c.s
}

// Sock is the socket behind c.
func (c *UnixConn) Sock() *Sock { return c.sock() }

func (c *TCPConn) sock() *Sock {
	if c == nil {
		return nil
	}
	return c.s
}

// Sock is the socket behind c.
func (c *TCPConn) Sock() *Sock { return c.sock() }

func (c *UnixConn) Close() error                          { return c.sock().close() }
func (c *UnixConn) CloseRead() error                      { return c.sock().shut(true, false) }
func (c *UnixConn) CloseWrite() error                     { return c.sock().shut(false, true) }
func (c *UnixConn) File() (*os.File, error)               { return nil, errUnsupported }
func (c *UnixConn) SyscallConn() (syscall.RawConn, error) { return nil, errUnsupported }
func (c *UnixConn) LocalAddr() net.Addr                   { return c.s.local }
func (c *UnixConn) RemoteAddr() net.Addr                  { return c.s.remote }
func (c *UnixConn) Read(b []byte) (int, error)            { return c.sock().read(b) }
func (c *UnixConn) Write(b []byte) (int, error)           { return c.sock().write("write", b) }
func (c *UnixConn) SetDeadline(t time.Time) error         { return c.sock().deadline(t, true, true) }
func (c *UnixConn) SetReadDeadline(t time.Time) error     { return c.sock().deadline(t, true, false) }
func (c *UnixConn) SetWriteDeadline(t time.Time) error    { return c.sock().deadline(t, false, true) }
func (c *UnixConn) SetReadBuffer(int) error               { return c.sock().option() }
func (c *UnixConn) SetWriteBuffer(int) error              { return c.sock().option() }
func (c *UnixConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, err := c.sock().read(b)
	return n, nil, err
}
func (c *UnixConn) ReadFromUnix(b []byte) (int, *net.UnixAddr, error) {
	n, err := c.sock().read(b)
	return n, nil, err
}
func (c *UnixConn) ReadMsgUnix(b, oob []byte) (n, oobn, flags int, addr *net.UnixAddr, err error) {
	n, err = c.sock().read(b)
	return
}
func (c *UnixConn) WriteTo(b []byte, addr net.Addr) (int, error) {
	a, ok := addr.(*net.UnixAddr)
	if !ok {
		return 0, c.s.fail("write", syscall.EINVAL)
	}
	return c.WriteToUnix(b, a)
}

func (c *UnixConn) WriteToUnix(b []byte, addr *net.UnixAddr) (int, error) {
	if addr == nil {
		return 0, c.s.fail("write", errors.New("missing address"))
	}
	t, _ := world.at("unix " + addr.Name).(*Sock)
	if t == nil {
		return 0, c.s.fail("write", sys("sendto", syscall.ECONNREFUSED))
	}
	return c.s.writeTo(t.in, "sendto", b)
}

func (c *UnixConn) WriteMsgUnix(b, oob []byte, addr *net.UnixAddr) (n, oobn int, err error) {
	if addr == nil {
		n, err = c.Write(b)
	} else {
		n, err = c.WriteToUnix(b, addr)
	}
	return
}

func (c *TCPConn) Close() error                                 { return c.sock().close() }
func (c *TCPConn) CloseRead() error                             { return c.sock().shut(true, false) }
func (c *TCPConn) CloseWrite() error                            { return c.sock().shut(false, true) }
func (c *TCPConn) File() (*os.File, error)                      { return nil, errUnsupported }
func (c *TCPConn) SyscallConn() (syscall.RawConn, error)        { return nil, errUnsupported }
func (c *TCPConn) LocalAddr() net.Addr                          { return c.s.local }
func (c *TCPConn) RemoteAddr() net.Addr                         { return c.s.remote }
func (c *TCPConn) MultipathTCP() (bool, error)                  { return false, nil }
func (c *TCPConn) Read(b []byte) (int, error)                   { return c.sock().read(b) }
func (c *TCPConn) Write(b []byte) (int, error)                  { return c.sock().write("write", b) }
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error)          { return io.Copy(onlyWriter{c}, r) }
func (c *TCPConn) WriteTo(w io.Writer) (int64, error)           { return io.Copy(w, onlyReader{c}) }
func (c *TCPConn) SetDeadline(t time.Time) error                { return c.sock().deadline(t, true, true) }
func (c *TCPConn) SetReadDeadline(t time.Time) error            { return c.sock().deadline(t, true, false) }
func (c *TCPConn) SetWriteDeadline(t time.Time) error           { return c.sock().deadline(t, false, true) }
func (c *TCPConn) SetKeepAlive(bool) error                      { return c.sock().option() }
func (c *TCPConn) SetKeepAliveConfig(net.KeepAliveConfig) error { return c.sock().option() }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error       { return c.sock().option() }
func (c *TCPConn) SetLinger(int) error                          { return c.sock().option() }
func (c *TCPConn) SetNoDelay(bool) error                        { return c.sock().option() }
func (c *TCPConn) SetReadBuffer(int) error                      { return c.sock().option() }
func (c *TCPConn) SetWriteBuffer(int) error                     { return c.sock().option() }

type (
	onlyWriter struct{ io.Writer }
	onlyReader struct{ io.Reader }
)

func (l *UnixListener) lst() *Lst {
	if l == nil {
		return nil
	}
	return l.l
}

func (l *TCPListener) lst() *Lst {
	if l == nil {
		return nil
	}
	return l.l
}

func (l *UnixListener) Accept() (net.Conn, error) {
	c, err := l.AcceptUnix()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *UnixListener) AcceptUnix() (*UnixConn, error) {
	s, err := l.lst().accept()
	if err != nil {
		return nil, err
	}
	return &UnixConn{s}, nil
}

func (l *UnixListener) Addr() net.Addr                        { return l.l.local }
func (l *UnixListener) Close() error                          { return l.lst().close() }
func (l *UnixListener) File() (*os.File, error)               { return nil, errUnsupported }
func (l *UnixListener) SetDeadline(t time.Time) error         { return l.lst().deadline(t) }
func (l *UnixListener) SetUnlinkOnClose(unlink bool)          { l.l.unlink = unlink }
func (l *UnixListener) SyscallConn() (syscall.RawConn, error) { return nil, errUnsupported }

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	s, err := l.lst().accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{s}, nil
}

func (l *TCPListener) Addr() net.Addr                        { return l.l.local }
func (l *TCPListener) Close() error                          { return l.lst().close() }
func (l *TCPListener) File() (*os.File, error)               { return nil, errUnsupported }
func (l *TCPListener) SetDeadline(t time.Time) error         { return l.lst().deadline(t) }
func (l *TCPListener) SyscallConn() (syscall.RawConn, error) { return nil, errUnsupported }

// WriteTo is that of net.Buffers: one system call for all buffers on a socket, one write for each elsewhere.
func (v *Buffers) WriteTo(w io.Writer) (n int64, err error) {
	var s *Sock
	switch c := w.(type) {
	case *UnixConn:
		s = c.sock()
	case *TCPConn:
		s = c.sock()
	}
	if s != nil {
		var all []byte
		for _, b := range *v {
			all = append(all, b...)
		}
		k, err := s.write("writev", all)
		v.consume(int64(k))
		return int64(k), err
	}
	for _, b := range *v {
		nb, err := w.Write(b)
		n += int64(nb)
		if err != nil {
			v.consume(n)
			return n, err
		}
	}
	v.consume(n)
	return n, nil
}

func (v *Buffers) Read(p []byte) (n int, err error) {
	for len(p) > 0 && len(*v) > 0 {
		n0 := copy(p, (*v)[0])
		v.consume(int64(n0))
		p = p[n0:]
		n += n0
	}
	if len(*v) == 0 {
		err = io.EOF
	}
	return
}

func (v *Buffers) consume(n int64) {
	for len(*v) > 0 {
		ln0 := int64(len((*v)[0]))
		if ln0 > n {
			(*v)[0] = (*v)[0][n:]
			return
		}
		n -= ln0
		(*v)[0] = nil
		*v = (*v)[1:]
	}
}

// --- names

//go:norace
func lookup(host string) ([]net.IPAddr, error) {
	if host == "" {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	if a, err := netip.ParseAddr(host); err == nil {
		return []net.IPAddr{{IP: net.IP(a.AsSlice()), Zone: a.Zone()}}, nil
	}
	if world == nil || !vs.Active() {
		return nil, &net.DNSError{Err: errNoWorld.Error(), Name: host}
	}
	vs.Point(unsafe.Pointer(world), "lookup")
	if l, ok := world.Hosts[host]; ok {
		return append([]net.IPAddr(nil), l...), nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}

func (r *Resolver) LookupIPAddr(ctx context.Context, host string) ([]net.IPAddr, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.DNSError{Err: err.Error(), Name: host, IsTimeout: errors.Is(err, context.DeadlineExceeded)}
	}
	return lookup(host)
}

func (r *Resolver) LookupIP(ctx context.Context, network, host string) ([]net.IP, error) {
	switch network {
	case "ip", "ip4", "ip6":
	default:
		return nil, net.UnknownNetworkError(network)
	}
	l, err := r.LookupIPAddr(ctx, host)
	if err != nil {
		return nil, err
	}
	var ips []net.IP
	for _, a := range l {
		if is4 := a.IP.To4() != nil; network == "ip" || is4 == (network == "ip4") {
			ips = append(ips, a.IP)
		}
	}
	if len(ips) == 0 {
		return nil, &net.AddrError{Err: "no suitable address found", Addr: host}
	}
	return ips, nil
}

func (r *Resolver) LookupNetIP(ctx context.Context, network, host string) ([]netip.Addr, error) {
	ips, err := r.LookupIP(ctx, network, host)
	var l []netip.Addr
	for _, ip := range ips {
		a, _ := netip.AddrFromSlice(ip)
		l = append(l, a)
	}
	return l, err
}

func (r *Resolver) LookupHost(ctx context.Context, host string) ([]string, error) {
	l, err := r.LookupIPAddr(ctx, host)
	var s []string
	for _, a := range l {
		s = append(s, a.String())
	}
	return s, err
}

func (r *Resolver) LookupPort(ctx context.Context, network, service string) (int, error) {
	return net.DefaultResolver.LookupPort(ctx, network, service)
}

func (r *Resolver) LookupAddr(ctx context.Context, addr string) ([]string, error) {
	return nil, errUnsupported
}
func (r *Resolver) LookupCNAME(ctx context.Context, host string) (string, error) {
	return "", errUnsupported
}
func (r *Resolver) LookupMX(ctx context.Context, name string) ([]*net.MX, error) {
	return nil, errUnsupported
}
func (r *Resolver) LookupNS(ctx context.Context, name string) ([]*net.NS, error) {
	return nil, errUnsupported
}
func (r *Resolver) LookupTXT(ctx context.Context, name string) ([]string, error) {
	return nil, errUnsupported
}
func (r *Resolver) LookupSRV(ctx context.Context, service, proto, name string) (string, []*net.SRV, error) {
	return "", nil, errUnsupported
}

func LookupHost(host string) ([]string, error) {
	return DefaultResolver.LookupHost(context.Background(), host)
}
func LookupIP(host string) ([]net.IP, error) {
	return DefaultResolver.LookupIP(context.Background(), "ip", host)
}

func hostPort(network, address string) (ips []net.IPAddr, port int, err error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, 0, err
	}
	if p != "" {
		if port, err = net.LookupPort("tcp", p); err != nil {
			return nil, 0, err
		}
	}
	if h == "" {
		return []net.IPAddr{{}}, port, nil
	}
	l, err := lookup(h)
	if err != nil {
		return nil, 0, err
	}
	for _, a := range l {
		if is4 := a.IP.To4() != nil; network == "tcp4" && !is4 || network == "tcp6" && is4 {
			continue
		}
		ips = append(ips, a)
	}
	if len(ips) == 0 {
		return nil, 0, &net.AddrError{Err: "no suitable address found", Addr: h}
	}
	return ips, port, nil
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	case "":
		network = "tcp"
	default:
		return nil, net.UnknownNetworkError(network)
	}
	if address == "" {
		return nil, errors.New("missing address")
	}
	ips, port, err := hostPort(network, address)
	if err != nil {
		return nil, err
	}
	best := ips[0]
	for _, a := range ips { // IPv4 first
		if a.IP.To4() != nil {
			best = a
			break
		}
	}
	return &net.TCPAddr{IP: best.IP, Port: port, Zone: best.Zone}, nil
}

// --- functions

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	s, err := dialTCP(network, laddr, raddr)
	if err != nil {
		return nil, err
	}
	return &TCPConn{s}, nil
}

func DialUnix(network string, laddr, raddr *net.UnixAddr) (*UnixConn, error) {
	s, err := dialUnix(network, laddr, raddr)
	if err != nil {
		return nil, err
	}
	return &UnixConn{s}, nil
}

func Dial(network, address string) (net.Conn, error) { return (&Dialer{}).Dial(network, address) }

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: timeout}).Dial(network, address)
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	switch network {
	case "unix", "unixgram", "unixpacket":
		c, err := DialUnix(network, nil, &net.UnixAddr{Name: address, Net: network})
		if err != nil {
			return nil, err
		}
		return c, nil
	case "tcp", "tcp4", "tcp6":
		ips, port, err := hostPort(network, address)
		if err != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: err}
		}
		for _, ip := range ips {
			var c *TCPConn
			if c, err = DialTCP(network, nil, &net.TCPAddr{IP: ip.IP, Port: port, Zone: ip.Zone}); err == nil {
				return c, nil
			}
		}
		return nil, err
	}
	return nil, &net.OpError{Op: "dial", Net: network, Err: net.UnknownNetworkError(network)}
}

func (d *Dialer) DialTCP(ctx context.Context, network string, laddr, raddr netip.AddrPort) (*TCPConn, error) {
	return DialTCP(network, nil, net.TCPAddrFromAddrPort(raddr))
}

func (d *Dialer) DialUnix(ctx context.Context, network string, laddr, raddr *net.UnixAddr) (*UnixConn, error) {
	return DialUnix(network, laddr, raddr)
}

func (d *Dialer) MultipathTCP() bool       { return false }
func (d *Dialer) SetMultipathTCP(bool)     {}
func (d *ListenConfig) MultipathTCP() bool { return false }
func (d *ListenConfig) SetMultipathTCP(bool) {
}

func (d *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

func (d *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}

func ListenUnix(network string, laddr *net.UnixAddr) (*UnixListener, error) {
	switch network {
	case "unix", "unixpacket":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: net.UnknownNetworkError(network)}
	}
	if laddr == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("missing address")}
	}
	l := &Lst{Net: network, Path: laddr.Name, local: laddr, unlink: true}
	if err := bind(laddr, network, l); err != nil {
		return nil, err
	}
	world.Lists = append(world.Lists, l)
	return &UnixListener{l}, nil
}

//go:norace
func ListenUnixgram(network string, laddr *net.UnixAddr) (*UnixConn, error) {
	if network != "unixgram" {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: net.UnknownNetworkError(network)}
	}
	if laddr == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("missing address")}
	}
	s := &Sock{Net: network, local: laddr, in: &dir{dgram: true}, Path: laddr.Name}
	if err := bind(laddr, network, s); err != nil {
		return nil, err
	}
	s.ID, s.in.limit = len(world.Socks), world.QueueTo
	world.Socks = append(world.Socks, s)
	return &UnixConn{s}, nil
}

//go:norace
func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: net.UnknownNetworkError(network)}
	}
	if laddr == nil {
		laddr = &net.TCPAddr{}
	}
	if world == nil || !vs.Active() {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: errNoWorld}
	}
	vs.Point(unsafe.Pointer(world), "bind")
	a := *laddr
	if len(a.IP) == 0 {
		a.IP = net.IPv4zero
	}
	if a.Port == 0 {
		world.port++
		a.Port = world.port
	}
	if world.at(tcpKey(a.IP, a.Port)) != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: sys("bind", syscall.EADDRINUSE)}
	}
	l := &Lst{Net: network, Path: a.String(), local: &a}
	world.Lists = append(world.Lists, l)
	world.bind(tcpKey(a.IP, a.Port), l)
	return &TCPListener{l}, nil
}

func Listen(network, address string) (net.Listener, error) {
	switch network {
	case "unix", "unixpacket":
		l, err := ListenUnix(network, &net.UnixAddr{Name: address, Net: network})
		if err != nil {
			return nil, err
		}
		return l, nil
	case "tcp", "tcp4", "tcp6":
		a, err := ResolveTCPAddr(network, address)
		if err != nil {
			return nil, &net.OpError{Op: "listen", Net: network, Err: err}
		}
		l, err := ListenTCP(network, a)
		if err != nil {
			return nil, err
		}
		return l, nil
	}
	return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	if network != "unixgram" {
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	c, err := ListenUnixgram(network, &net.UnixAddr{Name: address, Net: network})
	if err != nil {
		return nil, err
	}
	return c, nil
}
