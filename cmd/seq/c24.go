package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
)

// place is a path in some state.
type place struct {
	dir, path string
	got       chan string // what live sockets receive
	close     []func()
}

type state24 struct {
	name   string
	make   func(p *place)
	stream bool // something accepts streams there
	dgram  bool // something receives datagrams there
	free   bool // a listener can be created
	taken  bool // a listener cannot be created
}

func must24(err error) {
	if err != nil {
		mc.Broken("%v", err)
	}
}

func (p *place) liveStream(path string) {
	l, err := net.ListenUnix("unix", &net.UnixAddr{Name: path, Net: "unix"})
	must24(err)
	l.SetUnlinkOnClose(false)
	p.close = append(p.close, func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b, _ := io.ReadAll(c)
				p.got <- string(b)
				c.Close()
			}()
		}
	}()
}

func (p *place) liveDgram(path string) {
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: "unixgram"})
	must24(err)
	p.close = append(p.close, func() { c.Close() })
	go func() {
		b := make([]byte, 1<<16)
		for {
			n, err := c.Read(b)
			if err != nil {
				return
			}
			p.got <- string(b[:n])
		}
	}()
}

func stale(path string, stream bool) {
	if stream {
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: path, Net: "unix"})
		must24(err)
		l.SetUnlinkOnClose(false)
		l.Close()
		return
	}
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: "unixgram"})
	must24(err)
	c.Close()
	if _, err := os.Lstat(path); err != nil {
		mc.Broken("no stale socket: %v", err)
	}
}

func content(path, s string) { must24(os.WriteFile(path, []byte(s), 0640)) }

var states24 = []state24{
	{name: "absent", make: func(p *place) {}, free: true},
	{name: "stale stream socket", make: func(p *place) { stale(p.path, true) }, free: true},
	{name: "stale datagram socket", make: func(p *place) { stale(p.path, false) }, free: true},
	{name: "live stream socket", make: func(p *place) { p.liveStream(p.path) }, stream: true, free: true},
	{name: "live datagram socket", make: func(p *place) { p.liveDgram(p.path) }, dgram: true, free: true},
	{name: "file", make: func(p *place) { content(p.path, "precious") }, taken: true},
	{name: "empty file", make: func(p *place) { content(p.path, "") }, taken: true},
	{name: "executable file", make: func(p *place) { content(p.path, "#!"); must24(os.Chmod(p.path, 0755)) }, taken: true},
	{name: "directory", make: func(p *place) { must24(os.Mkdir(p.path, 0700)); content(filepath.Join(p.path, "f"), "inside") }, taken: true},
	{name: "empty directory", make: func(p *place) { must24(os.Mkdir(p.path, 0700)) }, taken: true},
	{name: "fifo", make: func(p *place) { must24(syscall.Mkfifo(p.path, 0600)) }, taken: true},
	{name: "dangling link", make: func(p *place) { must24(os.Symlink(filepath.Join(p.dir, "nothing"), p.path)) }, taken: true},
	{name: "link to itself", make: func(p *place) { must24(os.Symlink(p.path, p.path)) }, taken: true},
	{name: "link to a file", make: func(p *place) {
		content(filepath.Join(p.dir, "t"), "precious")
		must24(os.Symlink(filepath.Join(p.dir, "t"), p.path))
	}, taken: true},
	{name: "link to a directory", make: func(p *place) {
		must24(os.Mkdir(filepath.Join(p.dir, "t"), 0700))
		must24(os.Symlink(filepath.Join(p.dir, "t"), p.path))
	}, taken: true},
	{name: "link to a live stream socket", make: func(p *place) {
		p.liveStream(filepath.Join(p.dir, "t"))
		must24(os.Symlink(filepath.Join(p.dir, "t"), p.path))
	}, stream: true},
	{name: "link to a live datagram socket", make: func(p *place) {
		p.liveDgram(filepath.Join(p.dir, "t"))
		must24(os.Symlink(filepath.Join(p.dir, "t"), p.path))
	}, dgram: true},
	{name: "below a missing directory", make: func(p *place) { p.path = filepath.Join(p.dir, "missing", "s") }, taken: true},
	{name: "below a file", make: func(p *place) {
		content(filepath.Join(p.dir, "t"), "precious")
		p.path = filepath.Join(p.dir, "t", "s")
	}, taken: true},
	{name: "too long", make: func(p *place) { p.path = filepath.Join(p.dir, strings.Repeat("x", 120)) }, taken: true},
}

func newPlace(s state24) *place {
	d := scratchDir()
	p := &place{dir: d, path: filepath.Join(d, "s"), got: make(chan string, 100)}
	content(filepath.Join(d, "neighbour"), "neighbour")
	s.make(p)
	return p
}

func (p *place) end() {
	for _, f := range p.close {
		f()
	}
	if strings.HasPrefix(p.dir, os.Getenv("VERIF_SCRATCH")+"/") {
		os.RemoveAll(p.dir)
	}
}

// snapshot describes everything in the directory.
func (p *place) snapshot(skip string) string {
	var l []string
	filepath.Walk(p.dir, func(f string, i os.FileInfo, err error) error {
		if err != nil || f == p.dir || f == skip {
			return nil
		}
		s := f[len(p.dir):] + " " + i.Mode().String()
		switch {
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(f)
			s += fmt.Sprintf(" %q", b)
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(f)
			s += " -> " + t
		}
		if st, ok := i.Sys().(*syscall.Stat_t); ok {
			s += fmt.Sprintf(" %d", st.Ino)
		}
		l = append(l, s)
		return nil
	})
	return strings.Join(l, "\n")
}

func connect(x *mc.X, what string, c syslog5424.Connector) (w syslog5424.WriteCloser, err error) {
	if c == nil {
		x.Fail("%s gives no connector", what)
	}
	within(x, what, func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		w, err = c.Connect()
	})
	if err != nil && strings.HasPrefix(err.Error(), "panic: ") {
		x.Fail("%s: %v", what, err)
	}
	if err != nil && !isNil(w) {
		x.Fail("%s gives a connection and the error %v", what, err)
	}
	if err == nil && isNil(w) {
		x.Fail("%s gives neither a connection nor an error", what)
	}
	return
}

func isNil(w syslog5424.WriteCloser) bool {
	if w == nil {
		return true
	}
	switch v := w.(type) {
	case *net.TCPConn:
		return v == nil
	case *net.UnixConn:
		return v == nil
	case *os.File:
		return v == nil
	}
	return false
}

// says writes to the connection and waits for the target to get it.
func says(x *mc.X, what string, w syslog5424.WriteCloser, got chan string) {
	var err error
	within(x, "a write", func() {
		var n int
		n, err = w.Write([]byte("hello"))
		if err == nil && n != 5 {
			err = io.ErrShortWrite
		}
		if e := w.Close(); err == nil {
			err = e
		}
	})
	if err != nil {
		x.Fail("%s gives a connection that does not work: %v", what, err)
	}
	select {
	case g := <-got:
		if g != "hello" {
			x.Fail("%s: %q arrives instead of %q", what, g, "hello")
		}
	case <-time.After(patience):
		x.Fail("%s: what is written does not arrive", what)
	}
}

// localConnect: the local networks and the states of the target.
func localConnect(c *mc.C, x *mc.X) {
	s := states24[x.Choose(len(states24))]
	network := []string{"unix", "unixgram", ""}[x.Choose(3)]
	times := 1 + x.Choose(3) // the same connector again
	p := newPlace(s)
	defer p.end()
	before := p.snapshot("")
	what := fmt.Sprintf("connecting to network %q with %s", network, s.name)
	cn := syslog5424.LocalConnector(network, p.path)
	want := network != "unixgram" && s.stream || network != "unix" && s.dgram
	for i := 0; i < times; i++ {
		w, err := connect(x, what, cn)
		if (err == nil) != want {
			x.Fail("%s (time %d): connection %v, error %v", what, i+1, err == nil, err)
		}
		if err == nil {
			says(x, what, w, p.got)
		}
	}
	if after := p.snapshot(""); after != before {
		x.Fail("%s changes files from\n%s\nto\n%s", what, before, after)
	}
	if c.WantSample() {
		c.Sample("%s: connected %v", what, want)
	}
}

// localLater: a target that changes between two connections.
func localLater(c *mc.C, x *mc.X) {
	states := states24[:6]
	a, b := states[x.Choose(len(states))], states[x.Choose(len(states))]
	network := []string{"unix", "unixgram"}[x.Choose(2)]
	p := newPlace(a)
	cn := syslog5424.LocalConnector(network, p.path)
	try := func(s state24) {
		what := fmt.Sprintf("connecting to network %q with %s, which was %s", network, s.name, a.name)
		w, err := connect(x, what, cn)
		if want := network == "unix" && s.stream || network == "unixgram" && s.dgram; (err == nil) != want {
			x.Fail("%s: connection %v, error %v", what, err == nil, err)
		}
		if err == nil {
			says(x, what, w, p.got)
		}
	}
	try(a)
	for _, f := range p.close {
		f()
	}
	p.close = nil
	os.Remove(p.path)
	b.make(p)
	try(b)
	p.end()
}

// refused: what is neither a known network nor a known address.
func refused(c *mc.C, x *mc.X) {
	dir := scratchDir()
	file := filepath.Join(dir, "f")
	nets := []string{"", "stdio", "unix", "unixgram", "local", "tcp", "tcp4", "tcp6", "udp", "unixpacket", "TCP", "Unix", "tcp ", "stdio:", "ip", "file", "fd", "tls", "\x00"}
	network := nets[x.Choose(len(nets))]
	how := x.Choose(3)
	addr := ""
	known := map[string]bool{"stdio": true, "unix": true, "unixgram": true, "local": true, "tcp": true, "tcp4": true, "tcp6": true}[network]
	switch network {
	case "unix", "unixgram", "local":
		// with an empty address the usual sockets of the system are tried
		for _, f := range []string{"/var/run/syslog", "/var/run/log", "/dev/log"} {
			if _, err := os.Lstat(f); err == nil {
				return
			}
		}
	case "stdio":
		addr = []string{"", "stdin:", "stdout", "stderr", ":", "-", file, "file:" + file, "STDERR:", "stderr: ", "/dev/stdout", "1", "2"}[x.Choose(13)]
	case "tcp", "tcp4", "tcp6":
		addr = []string{"", ":", "::", "127.0.0.1:x", "127.0.0.1:70000", "127.0.0.1:-1", "127.0.0.1:1:2", "[::1", "127.0.0.1:1.5", file}[x.Choose(10)]
		if addr == ":" && how != 0 {
			return
		}
	default:
		addr = []string{"", file, "127.0.0.1:1", "stderr:"}[x.Choose(4)]
	}
	what := fmt.Sprintf("network %q address %q", network, addr)
	if !known {
		l, err := syslog5424.GuessListener(network, addr)
		if err == nil || l != nil {
			x.Fail("GuessListener on %s gives %v, %v", what, l, err)
		}
	}
	switch how {
	case 0: // the connector itself
		var cn syslog5424.Connector
		switch {
		case network == "stdio":
			cn = syslog5424.StdioConnector(addr)
		case network == "local":
			cn = syslog5424.LocalConnector("", addr)
		case network == "unix" || network == "unixgram":
			cn = syslog5424.LocalConnector(network, addr)
		case known:
			cn = syslog5424.TCPConnector(network, addr)
		default:
			if network == "" {
				return
			}
			if w, err := connect(x, what, syslog5424.LocalConnector(network, "/nonexistent/s")); err == nil {
				w.Close()
				x.Fail("LocalConnector with %s connects", what)
			}
			cn = syslog5424.TCPConnector(network, "127.0.0.1:1")
		}
		if addr == ":" { // nobody's host, port 514
			connect(x, what, cn)
			return
		}
		if w, err := connect(x, what, cn); err == nil {
			w.Close()
			x.Fail("%s gives a connection", what)
		}
	default:
		var s *syslog5424.Sender
		var errs <-chan error
		var err error
		if how == 1 {
			s, errs, err = (syslog5424.Dialer{FlushDelay: 2 * time.Millisecond}).Dial(network, addr, nil)
		} else {
			if known { // the errors of Dial come every half second
				return
			}
			s, errs, err = syslog5424.Dial(network, addr)
		}
		if err != nil {
			if s != nil {
				x.Fail("Dial on %s gives a sender and the error %v", what, err)
			}
			return
		}
		if !known {
			x.Fail("Dial on %s gives no error", what)
		}
		if s == nil || errs == nil {
			x.Fail("Dial on %s gives neither a sender nor an error", what)
		}
		select {
		case e := <-errs:
			if e == nil {
				x.Fail("Dial on %s reports no error", what)
			}
		case <-time.After(patience):
			x.Fail("Dial on %s never reports an error", what)
		}
		within(x, "End", s.End)
	}
	if _, err := os.Lstat(file); err == nil {
		x.Fail("%s creates a file", what)
	}
	os.RemoveAll(dir)
	if c.WantSample() {
		c.Sample("%s: refused", what)
	}
}

// tcpConnect: addresses of TCP endpoints.
func tcpConnect(c *mc.C, x *mc.X) {
	network := []string{"tcp", "tcp4", "tcp6"}[x.Choose(3)]
	serve := []string{"127.0.0.1", "::1", ""}[x.Choose(3)] // where something listens
	host := []string{"127.0.0.1", "::1", "localhost", "127.0.0.2", "::ffff:127.0.0.1"}[x.Choose(5)]
	if !haveIPv6 && serve == "::1" {
		return
	}
	p := &place{got: make(chan string, 10)}
	var port string
	if serve == "" {
		port = freePort("tcp", "127.0.0.1")
	} else {
		port = freePort("tcp", serve)
		l, err := net.Listen("tcp", net.JoinHostPort(serve, port))
		must24(err)
		defer l.Close()
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					b, _ := io.ReadAll(c)
					p.got <- string(b)
					c.Close()
				}()
			}
		}()
	}
	// what the host stands for
	var ips []net.IP
	if ip := net.ParseIP(host); ip != nil {
		ips = []net.IP{ip}
	} else {
		l, err := net.LookupIP(host)
		if err != nil {
			return
		}
		ips = l
	}
	want := false
	for _, ip := range ips {
		v4 := ip.To4() != nil
		if network == "tcp4" && !v4 || network == "tcp6" && v4 {
			continue
		}
		want = want || serve != "" && ip.Equal(net.ParseIP(serve))
	}
	what := fmt.Sprintf("connecting to %s %s, served at %s", network, net.JoinHostPort(host, "PORT"), serve)
	cn := syslog5424.TCPConnector(network, net.JoinHostPort(host, port))
	for i := 0; i < 2; i++ {
		w, err := connect(x, what, cn)
		if (err == nil) != want {
			x.Fail("%s: connection %v, error %v", what, err == nil, err)
		}
		if err == nil {
			says(x, what, w, p.got)
		}
	}
	if c.WantSample() {
		c.Sample("%s: connected %v", what, want)
	}
}

// defaultPort: an address without port means port 514.
func defaultPort(x *mc.X) {
	network := []string{"tcp", "tcp4", "tcp6"}[x.Choose(3)]
	host := []string{"127.0.0.1", "localhost", "[::1]"}[x.Choose(3)]
	if network == "tcp6" && host == "127.0.0.1" || network == "tcp4" && host == "[::1]" || host == "[::1]" && !haveIPv6 {
		return
	}
	if network == "tcp6" && host == "localhost" {
		l, _ := net.LookupIP(host)
		six := false
		for _, ip := range l {
			six = six || ip.To4() == nil
		}
		if !six {
			return
		}
	}
	what := network + " " + host + ":"
	w, err := connect(x, what, syslog5424.TCPConnector(network, host+":"))
	var a net.Addr
	if err == nil {
		if c, ok := w.(net.Conn); ok {
			a = c.RemoteAddr()
		}
		w.Close()
	} else {
		var op *net.OpError
		if !errors.As(err, &op) {
			if !strings.Contains(err.Error(), ":514") {
				x.Fail("%s: %v", what, err)
			}
			return
		}
		a = op.Addr
	}
	if t, ok := a.(*net.TCPAddr); !ok || t.Port != 514 {
		x.Fail("%s goes to %v, not to port 514", what, a)
	}
}

// localListen: listeners at paths in all states.
func localListen(c *mc.C, x *mc.X) {
	s := states24[x.Choose(len(states24))]
	network := []string{"unix", "unixgram"}[x.Choose(2)]
	guess := x.Choose(2) == 1
	p := newPlace(s)
	defer p.end()
	before, around := p.snapshot(""), p.snapshot(p.path)
	what := fmt.Sprintf("listening on %s with %s", network, s.name)
	var l syslog5424.Listener
	var err error
	within(x, what, func() {
		switch {
		case guess:
			l, err = syslog5424.GuessListener(network, p.path)
		case network == "unix":
			l, err = syslog5424.UnixListener(p.path)
		default:
			l, err = syslog5424.UnixgramListener(p.path)
		}
	})
	if err != nil {
		if s.free {
			x.Fail("%s: %v", what, err)
		}
		if l != nil {
			x.Fail("%s gives a listener and the error %v", what, err)
		}
		if after := p.snapshot(""); after != before {
			x.Fail("%s fails (%v) and changes files from\n%s\nto\n%s", what, err, before, after)
		}
		return
	}
	if s.taken {
		x.Fail("%s succeeds", what)
	}
	if after := p.snapshot(p.path); after != around {
		x.Fail("%s changes other files from\n%s\nto\n%s", what, around, after)
	}
	use := x.Choose(4)
	useListener(x, what, network, p.path, l, use)
	if after := p.snapshot(p.path); after != around {
		x.Fail("%s and closing changes other files from\n%s\nto\n%s", what, around, after)
	}
	if network == "unix" {
		if _, err := os.Lstat(p.path); err == nil {
			x.Fail("the socket file remains after Close (%s)", what)
		}
	}
	if c.WantSample() {
		c.Sample("%s: works", what)
	}
}

// useListener makes connections, closes the listener and makes sure that nobody can connect any more. use: without any
// connection; with one accepted before Close; and finished before Close; with an Accept waiting.
func useListener(x *mc.X, what, network, addr string, l syslog5424.Listener, use int) {
	type res struct {
		r   syslog5424.DataReader
		err error
	}
	accept := func() chan res {
		ch := make(chan res, 1)
		go func() {
			r, err := l.Accept()
			ch <- res{r, err}
		}()
		return ch
	}
	take := func(ch chan res) res {
		select {
		case r := <-ch:
			return r
		case <-time.After(patience):
			x.Fail("%s: Accept hangs", what)
		}
		return res{}
	}
	var cl net.Conn
	var err error
	dial := func() (net.Conn, error) { return net.DialTimeout(network, addr, patience) }
	var conn syslog5424.DataReader
	read := func(want string) {
		var got []byte
		within(x, "reading", func() {
			b := make([]byte, 1)
			for len(got) < len(want) {
				n, err := conn.Read(b)
				got = append(got, b[:n]...)
				if err != nil {
					got = append(got, (" " + err.Error())...)
					return
				}
			}
		})
		if string(got) != want {
			x.Fail("%s: %q is read instead of %q", what, got, want)
		}
	}
	if use == 1 || use == 2 {
		if cl, err = dial(); err != nil {
			x.Fail("%s: nobody can connect: %v", what, err)
		}
		defer cl.Close()
		r := take(accept())
		if r.err != nil {
			x.Fail("%s: Accept: %v", what, r.err)
		}
		conn = r.r
		conn.RemoteAddr()
		cl.Write([]byte("hello"))
		read("hello")
		if use == 2 {
			cl.Write([]byte("x"))
			within(x, "closing a connection", func() { conn.Close() })
			if network == "unixgram" { // the same socket again
				r := take(accept())
				if r.err != nil {
					x.Fail("%s: a second Accept: %v", what, r.err)
				}
				conn = r.r
				cl.Write([]byte("more"))
				read("xmore")
				conn.Close()
			}
		} else {
			cl.Write([]byte("bye")) // read after Close
		}
	}
	var waiting chan res
	if use == 3 {
		if network == "unixgram" { // the first Accept does not wait
			r := take(accept())
			if r.err != nil {
				x.Fail("%s: Accept: %v", what, r.err)
			}
			conn = r.r
		}
		waiting = accept()
		time.Sleep(2 * time.Millisecond)
	}
	within(x, "Close", func() { err = l.Close() })
	if err != nil {
		x.Fail("%s: Close: %v", what, err)
	}
	if use == 3 {
		if r := take(waiting); r.err == nil {
			x.Fail("%s: a waiting Accept gives a connection after Close", what)
		}
		if conn != nil {
			within(x, "reading after Close", func() {
				var n int
				n, err = conn.Read(make([]byte, 10))
				if n != 0 {
					x.Fail("%s: reading after Close gives %d bytes from nobody", what, n)
				}
			})
			if err != io.EOF {
				x.Fail("%s: reading after Close ends with %v", what, err)
			}
			conn.Close()
		}
	}
	if use == 1 {
		read("bye")
		conn.Close()
	}
	if r := take(accept()); r.err == nil || r.r != nil {
		x.Fail("%s: Accept after Close gives %v, %v", what, r.r, r.err)
	}
	if cn, err := dial(); err == nil {
		cn.Close()
		x.Fail("%s: one can still connect after Close", what)
	}
	if cn, err := connect(x, "connecting after Close", map[bool]syslog5424.Connector{
		true: syslog5424.TCPConnector(network, addr), false: syslog5424.LocalConnector(network, addr)}[strings.HasPrefix(network, "tcp")]); err == nil {
		cn.Close()
		x.Fail("%s: one can still connect after Close", what)
	}
}

// tcpListen: TCP listeners.
func tcpListen(c *mc.C, x *mc.X) {
	network := []string{"tcp", "tcp4", "tcp6"}[x.Choose(3)]
	guess := x.Choose(2) == 1
	hosts := []string{"127.0.0.1", "::1", "localhost", ""}
	host := hosts[x.Choose(len(hosts))]
	kind := x.Choose(7)
	if !haveIPv6 && (host == "::1" || network == "tcp6") {
		return
	}
	listen := func(addr string) (l syslog5424.Listener, err error) {
		within(x, "listening", func() {
			if guess {
				l, err = syslog5424.GuessListener(network, addr)
			} else {
				l, err = syslog5424.TCPListener(network, addr)
			}
		})
		return
	}
	fails := func(addr string) {
		if l, err := listen(addr); err == nil || l != nil {
			x.Fail("listening on %s %q gives %v, %v", network, addr, l, err)
		}
	}
	port := freePort("tcp", "")
	addr := net.JoinHostPort(host, port)
	switch kind {
	case 4:
		if host == "" {
			fails("nonsense")
			fails("127.0.0.1")
		}
		fails(net.JoinHostPort(host, "70000"))
		fails(net.JoinHostPort(host, "nonsense"))
		fails(net.JoinHostPort(host, "-1"))
		fails(addr + ":1")
		return
	case 5: // taken
		o, err := net.Listen("tcp", ":"+port)
		must24(err)
		fails(addr)
		cn, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err != nil {
			x.Fail("a failed listener disturbs the one that is there: %v", err)
		}
		cn.Close()
		o.Close()
		return
	case 6: // networks that are not TCP
		for _, n := range []string{"", "udp", "unix", "TCP", "tcp5", "unixgram", "ip"} {
			if l, err := syslog5424.TCPListener(n, addr); err == nil || l != nil {
				x.Fail("TCPListener(%q, %q) gives %v, %v", n, addr, l, err)
			}
		}
		return
	}
	wrong := network == "tcp4" && host == "::1" || network == "tcp6" && host == "127.0.0.1"
	if network == "tcp6" && host == "localhost" {
		l, _ := net.LookupIP(host)
		six := false
		for _, ip := range l {
			six = six || ip.To4() == nil
		}
		wrong = !six
	}
	if wrong {
		fails(addr)
		return
	}
	l, err := listen(addr)
	if err != nil {
		x.Fail("listening on %s %q: %v", network, addr, err)
	}
	useListener(x, fmt.Sprintf("listening on %s %q", network, net.JoinHostPort(host, "PORT")), network, addr, l, kind)
	// the port is free again
	l, err = listen(addr)
	if err != nil {
		x.Fail("listening again on %s %q: %v", network, addr, err)
	}
	l.Close()
	if c.WantSample() {
		c.Sample("listening on %s %s:%s, use %d", network, host, port, kind)
	}
}

// received24: End of a receiver on a real listener closes it and gives what is there.
func received24(x *mc.X) {
	w := ways[x.Choose(len(ways))]
	t := transports23[1+x.Choose(3)]
	k := x.Choose(4) // messages that wait when the receiver ends
	addr := w.address()
	r, in := listenTo(x, w, addr, t)
	tick := make(chan time.Time)
	s, errs := syslog5424.NewSender(w.connector(addr), t, tick)
	var want []string
	if k > 0 {
		m, enc := sized(0, 0)
		s.Send(m)
		within(x, "a flush", func() { tick <- time.Time{} })
		in.expect(x, []string{enc})
		for i := 1; i < k; i++ {
			m, enc := sized(i, 2000)
			s.Send(m)
			want = append(want, enc)
		}
		within(x, "a flush", func() { tick <- time.Time{} })
		within(x, "a flush", func() { tick <- time.Time{} })
	}
	within(x, "End of the receiver", r.End)
	in.expect(x, want)
	if k > 0 || w.listen == "unixgram" {
		within(x, "End of the sender", s.End)
		for e := range errs {
			x.Fail("the sender reports %v", e)
		}
	} else {
		s.End()
	}
	in.ended(x)
	if w.listen == "unixgram" {
		// the socket is released with the last reader
		for d := time.Now().Add(patience); ; {
			cn, err := net.Dial("unixgram", addr)
			if err != nil {
				break
			}
			cn.Close()
			if time.Now().After(d) {
				x.Fail("one can still connect after the end of the receiver")
			}
			time.Sleep(time.Millisecond)
		}
	} else {
		d := w.listen
		if cn, err := net.Dial(d, addr); err == nil {
			cn.Close()
			x.Fail("one can still connect after End (%s)", w.name())
		}
	}
	if w.listen == "unix" {
		if _, err := os.Lstat(addr); err == nil {
			x.Fail("the socket file remains after End")
		}
	}
}

var c24 = &mc.Property{
	ID:     "C24",
	Flaky:  true,
	Hang:   120 * time.Second,
	Assume: []string{"a local socket operation that takes more than 40 s is a hang", "the loopback network and local sockets of the system work", "what the names of hosts stand for is what the system's resolver says"},
	Bounds: func(deep bool) string {
		return fmt.Sprintf("connecting: 3 local networks x %d states of the target x 1 to 3 times, changing targets, 3 TCP networks x 3 served addresses x 5 hosts, default port, 19 network names x malformed addresses through connectors, Dialer and Dial; listening: 2 local networks x %d states x 2 ways x 4 uses before Close, TCP networks x hosts x uses, malformed and taken addresses; ends of receivers on %d kinds of endpoints", len(states24), len(states24), len(ways))
	},
	Units: func(deep bool) (u []mc.Unit) {
		part := func(name string, f func(c *mc.C, x *mc.X)) {
			u = append(u, mc.Unit{Name: name, Run: func(c *mc.C) { c.Enumerate(func(x *mc.X) { f(c, x) }) }})
		}
		part("receiver-end", func(c *mc.C, x *mc.X) { received24(x) })
		part("local-listen", localListen)
		part("local-connect", localConnect)
		part("local-connect-later", localLater)
		part("refused", refused)
		part("tcp-connect", tcpConnect)
		part("tcp-port", func(c *mc.C, x *mc.X) { defaultPort(x) })
		part("tcp-listen", tcpListen)
		return
	},
}
