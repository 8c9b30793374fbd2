package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
)

// patience is how long real sockets may take.
const patience = 40 * time.Second

var serial atomic.Int64

// scratchDir is a new directory with a short name.
func scratchDir() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		mc.Broken("VERIF_SCRATCH is not set")
	}
	d := filepath.Join(base, fmt.Sprintf("%d.%d", os.Getpid(), serial.Add(1)))
	if err := os.MkdirAll(d, 0700); err != nil {
		mc.Broken("%v", err)
	}
	return d
}

// freePort is a TCP port nobody else of these checks uses.
func freePort(network, host string) string {
	for i := 0; i < 2000; i++ {
		p := fmt.Sprint(20000 + (os.Getpid()*97+int(serial.Add(1)))%12000)
		l, err := net.Listen(network, net.JoinHostPort(host, p))
		if err == nil {
			l.Close()
			return p
		}
	}
	mc.Broken("no free port of %s %s", network, host)
	return ""
}

// haveIPv6 tells whether the loopback interface speaks IPv6.
var haveIPv6 = func() bool {
	l, err := net.Listen("tcp6", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
}()

// way is a network, how it is dialled and where the receiver listens.
type way struct {
	dial, listen string
	host         string
}

func (w way) tcp() bool { return strings.HasPrefix(w.listen, "tcp") }
func (w way) name() string {
	s := w.dial
	if w.dial != w.listen {
		s += "-to-" + w.listen
	}
	if w.tcp() {
		s += "-" + strings.Trim(w.host, "[]")
	}
	return strings.ReplaceAll(s, ":", "")
}

func (w way) address() string {
	if w.tcp() {
		h := strings.Trim(w.host, "[]")
		return net.JoinHostPort(h, freePort("tcp", h))
	}
	return filepath.Join(scratchDir(), "s")
}

func (w way) connector(addr string) syslog5424.Connector {
	switch {
	case w.tcp():
		return syslog5424.TCPConnector(w.dial, addr)
	case w.dial == "local":
		return syslog5424.LocalConnector("", addr)
	default:
		return syslog5424.LocalConnector(w.dial, addr)
	}
}

var ways = func() []way {
	l := []way{{"unix", "unix", ""}, {"unixgram", "unixgram", ""}, {"local", "unix", ""}, {"local", "unixgram", ""},
		{"tcp", "tcp", "127.0.0.1"}, {"tcp4", "tcp4", "127.0.0.1"}, {"tcp", "tcp4", "localhost"}, {"tcp4", "tcp", "localhost"}}
	if haveIPv6 {
		l = append(l, way{"tcp6", "tcp6", "[::1]"}, way{"tcp", "tcp6", "[::1]"})
	}
	return l
}()

var transports23 = []syslog5424.Transport{nil, syslog5424.TransportLFEnded, syslog5424.TransportZeroEnded, syslog5424.TransportRFC5425}

func transportName(t syslog5424.Transport) string {
	if t == nil {
		return "default"
	}
	return t.String()
}

// usual is the transport used by default.
func (w way) usual() syslog5424.Transport {
	if w.tcp() || w.dial == "stdio" {
		return syslog5424.TransportLFEnded
	}
	return syslog5424.TransportZeroEnded
}

// framed is what a message is on the wire, without the help of the library.
func framed(t syslog5424.Transport, m string) string {
	switch t {
	case syslog5424.TransportLFEnded:
		return m + "\n"
	case syslog5424.TransportZeroEnded:
		return m + "\x00"
	case syslog5424.TransportRFC5425:
		return fmt.Sprintf("%d %s", len(m), m)
	}
	mc.Broken("transport %v", t)
	return ""
}

// sized is the nth message, with a text of about size bytes.
func sized(n, size int) (syslog5424.Message, string) {
	text := fmt.Sprintf("message %d ", n)
	if len(text) < size {
		b := make([]byte, size-len(text))
		for i := range b {
			b[i] = byte('!' + (i*7+n)%94)
		}
		text += string(b)
	}
	text += "."
	return syslog5424.CreateWholeMessage(syslog5424.Priority(n%192), tsFixed, "h", "a", "p", "i", text),
		fmt.Sprintf("<%d>1 2003-10-11T22:14:15.003Z h a p i - %s", n%192, text)
}

// inbox collects what a receiver says.
type inbox struct {
	ch chan string
}

func watch(r *syslog5424.Receiver) *inbox {
	in := &inbox{make(chan string, 20000)} // the receiver is never held up
	go func() {
		for {
			m, err, ok := r.Receive()
			if !ok {
				close(in.ch)
				return
			}
			if err != nil {
				in.ch <- fmt.Sprintf("error %v of %.200q", err, m.String())
			} else {
				in.ch <- m.String()
			}
		}
	}()
	return in
}

func short(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q... (%d bytes)", s[:120], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (in *inbox) expect(x *mc.X, want []string) {
	t := time.NewTimer(patience)
	defer t.Stop()
	for i, w := range want {
		mc.Tick()
		select {
		case g, ok := <-in.ch:
			if !ok {
				x.Fail("the receiver ends after %d of %d messages", i, len(want))
			}
			if g != w {
				x.Fail("message %d is received as %s, it was sent as %s", i, short(g), short(w))
			}
		case <-t.C:
			x.Fail("message %d of %d does not arrive within %v: %s", i, len(want), patience, short(w))
		}
	}
}

// ended waits for the end, after which nothing is received.
func (in *inbox) ended(x *mc.X) {
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case g, ok := <-in.ch:
		if ok {
			x.Fail("received although nothing more was sent: %s", short(g))
		}
	case <-t.C:
		x.Fail("the receiver does not end within %v", patience)
	}
}

// within runs something that must not take long.
func within(x *mc.X, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		x.Fail("%s takes more than %v", what, patience)
	}
}

func listenTo(x *mc.X, w way, addr string, t syslog5424.Transport) (*syslog5424.Receiver, *inbox) {
	l, err := syslog5424.GuessListener(w.listen, addr)
	if err != nil {
		x.Fail("listening on %s %s: %v", w.listen, addr, err)
	}
	r, _ := syslog5424.NewReceiver(l, 100, t)
	return r, watch(r)
}

// batches are the numbers and sizes of the messages between two flushes; big is the biggest text of the network.
func batches(big int) [][]int {
	burst := make([]int, 1100) // more than one vector of buffers
	return [][]int{{0}, {0, 30, 0}, {5000}, {0, big, 0}, burst, {big, big}}
}

const marker = "<13>1 - - - - - - marker"

// finish ends both sides and makes sure that nothing more than what was expected arrives.
func finish(x *mc.X, w way, addr string, t syslog5424.Transport, r *syslog5424.Receiver, in *inbox) {
	if w.listen == "unixgram" { // its end takes a second
		c, err := net.Dial("unixgram", addr)
		if err != nil {
			x.Fail("%v", err)
		}
		c.Write([]byte(framed(t, marker)))
		c.Close()
		in.expect(x, []string{marker})
		r.End()
		return
	}
	r.End()
	in.ended(x)
}

// carry sends batches with chosen shapes over a connection flushed between them.
func carry(c *mc.C, x *mc.X, w way, t syslog5424.Transport, big, depth int) {
	addr := w.address()
	use := t
	if t == nil {
		use = w.usual()
	}
	r, in := listenTo(x, w, addr, use)
	var s *syslog5424.Sender
	var tick chan time.Time
	var errs <-chan error
	if t == nil {
		var err error
		d := syslog5424.Dialer{FlushDelay: []time.Duration{0, 3 * time.Millisecond}[x.Choose(2)]}
		if s, errs, err = d.Dial(w.dial, addr, nil); err != nil {
			x.Fail("dialling %s %s: %v", w.dial, addr, err)
		}
		if d.FlushDelay > 0 {
			tick = make(chan time.Time, 100) // it flushes itself
		}
	} else {
		tick = make(chan time.Time)
		s, errs = syslog5424.NewSender(w.connector(addr), t, tick)
	}
	shapes := batches(big)
	n := 0
	var want []string
	said := ""
	for d := 0; d < depth; d++ {
		k := x.Choose(len(shapes) + 1)
		if k == 0 {
			break
		}
		said += fmt.Sprintf("%d messages; ", len(shapes[k-1]))
		for _, size := range shapes[k-1] {
			m, enc := sized(n, size)
			if err := s.Send(m); err != nil {
				x.Fail("Send: %v", err)
			}
			want = append(want, enc)
			n++
		}
		if tick != nil {
			within(x, "a flush", func() { tick <- time.Time{} })
			in.expect(x, want)
			want = nil
		}
	}
	end := make(chan struct{})
	go func() { s.End(); close(end) }()
	in.expect(x, want)
	within(x, "End of the sender", func() { <-end })
	for e := range errs {
		x.Fail("the sender reports %v", e)
	}
	finish(x, w, addr, use, r, in)
	if c.WantSample() && n > 0 {
		c.Sample("%s%d messages received", said, n)
	}
}

// rawReader collects datagrams.
type rawReader struct {
	c  *net.UnixConn
	ch chan string
}

func rawDatagrams(addr string) *rawReader {
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: addr, Net: "unixgram"})
	if err != nil {
		mc.Broken("%v", err)
	}
	r := &rawReader{c, make(chan string, 20000)}
	go func() {
		b := make([]byte, 1<<20)
		for {
			n, err := c.Read(b)
			if err != nil {
				close(r.ch)
				return
			}
			r.ch <- string(b[:n])
		}
	}()
	return r
}

// boundaries: every message is one datagram, and one datagram is one frame.
func boundaries(c *mc.C, x *mc.X, w way, t syslog5424.Transport, big, depth int) {
	addr := w.address()
	raw := rawDatagrams(addr)
	defer raw.c.Close()
	tick := make(chan time.Time)
	s, errs := syslog5424.NewSender(w.connector(addr), t, tick)
	shapes := batches(big)
	n, said := 0, ""
	var want []string
	get := func() {
		tm := time.NewTimer(patience)
		defer tm.Stop()
		for i, w := range want {
			mc.Tick()
			select {
			case g := <-raw.ch:
				if g != w {
					x.Fail("datagram %d is %s, wanted %s", i, short(g), short(w))
				}
			case <-tm.C:
				x.Fail("datagram %d of %d does not arrive within %v", i, len(want), patience)
			}
		}
		want = nil
	}
	for d := 0; d < depth; d++ {
		k := x.Choose(len(shapes) + 1)
		if k == 0 {
			break
		}
		said += fmt.Sprintf("%d messages; ", len(shapes[k-1]))
		for _, size := range shapes[k-1] {
			m, enc := sized(n, size)
			if err := s.Send(m); err != nil {
				x.Fail("Send: %v", err)
			}
			want = append(want, framed(t, enc))
			n++
		}
		if x.Choose(2) == 0 {
			within(x, "a flush", func() { tick <- time.Time{} })
			get()
		}
	}
	go s.End()
	get()
	for e := range errs {
		x.Fail("the sender reports %v", e)
	}
	l, err := net.Dial("unixgram", addr)
	if err != nil {
		mc.Broken("%v", err)
	}
	l.Write([]byte("last"))
	l.Close()
	want = []string{"last"}
	get()
	if c.WantSample() && n > 0 {
		c.Sample("%s%d datagrams", said, n)
	}
}

// reads: an accepted datagram connection gives the bytes of the datagrams in order, whatever the sizes of the reads.
func reads(c *mc.C, x *mc.X, sizes, bufs []int, first, count, most int) {
	addr := filepath.Join(scratchDir(), "s")
	l, err := syslog5424.UnixgramListener(addr)
	if err != nil {
		x.Fail("%v", err)
	}
	var conn syslog5424.DataReader
	within(x, "Accept", func() { conn, err = l.Accept() })
	if err != nil {
		x.Fail("Accept: %v", err)
	}
	conn.RemoteAddr()
	defer func() { conn.Close(); l.Close() }()
	raw, err := net.Dial("unixgram", addr)
	if err != nil {
		x.Fail("%v", err)
	}
	defer raw.Close()
	var all []byte
	var lens, reads []int
	n := 1 + x.Choose(count)
	together := x.Choose(2) == 1 // all datagrams are there before the first read
	pat := []int{bufs[first], bufs[x.Choose(len(bufs))]}
	var grams [][]byte
	for i := 0; i < n; i++ {
		d := make([]byte, sizes[x.Choose(len(sizes))])
		for k := range d {
			d[k] = byte(k*31 + i*7 + k/251)
		}
		grams = append(grams, d)
		lens = append(lens, len(d))
	}
	cost := 0
	for _, d := range grams {
		cost += len(d) / ((pat[0] + pat[1]) / 2)
	}
	if cost > most { // too many tiny reads of a big datagram
		return
	}
	send := func(d []byte) {
		within(x, "sending a datagram", func() {
			if _, err := raw.Write(d); err != nil {
				x.Fail("a datagram of %d bytes: %v", len(d), err)
			}
		})
		all = append(all, d...)
	}
	k := 0
	read := func() {
		got := 0
		total := len(all)
		for got < total {
			mc.Tick()
			b := bytes.Repeat([]byte{0xee}, pat[k%2])
			k++
			var m int
			var err error
			done := make(chan struct{})
			go func() { m, err = conn.Read(b); close(done) }()
			select {
			case <-done:
			case <-time.After(patience):
				x.Fail("reading by %v from datagrams of %v bytes hangs after %d bytes", pat, lens, got)
			}
			if err != nil {
				x.Fail("reading by %v from datagrams of %v bytes: %v after %d bytes", pat, lens, err, got)
			}
			reads = append(reads, m)
			if m > len(b) || m > len(all) || !bytes.Equal(b[:m], all[:m]) {
				x.Fail("reading by %v from datagrams of %v bytes: wrong bytes after %d", pat, lens, got)
			}
			all = all[m:]
			got += m
		}
	}
	for _, d := range grams {
		send(d)
		if !together {
			read()
		}
	}
	read()
	if c.WantSample() && len(reads) < 20 {
		c.Sample("datagrams of %v bytes give reads of %v", lens, reads)
	}
}

// crowd: several senders to one receiver, all messages of each in order.
func crowd(x *mc.X, w way, t syslog5424.Transport, senders, each int) {
	addr := w.address()
	r, in := listenTo(x, w, addr, t)
	sizes := [][]int{{0}, {3000, 0}, {0, 0, 40000}}[x.Choose(3)]
	want := map[string][]string{}
	var wg sync.WaitGroup
	var failed atomic.Value
	for i := 0; i < senders; i++ {
		id := fmt.Sprintf("id%d", i)
		var ms []syslog5424.Message
		for k := 0; k < each; k++ {
			m, enc := sized(k, sizes[k%len(sizes)])
			ms = append(ms, m.MsgID(id))
			want[id] = append(want[id], strings.Replace(enc, " i - ", " "+id+" - ", 1))
		}
		s, errs, err := syslog5424.Dialer{FlushDelay: 2 * time.Millisecond}.Dial(w.dial, addr, t)
		if err != nil {
			x.Fail("%v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, m := range ms {
				if err := s.Send(m); err != nil {
					failed.Store(err.Error())
				}
			}
			s.End()
			for e := range errs {
				failed.Store(e.Error())
			}
		}()
	}
	tm := time.NewTimer(patience)
	defer tm.Stop()
	for n := 0; n < senders*each; n++ {
		mc.Tick()
		select {
		case g := <-in.ch:
			f := strings.SplitN(g, " ", 7)
			if len(f) < 7 || len(want[f[5]]) == 0 || want[f[5]][0] != g {
				x.Fail("received %s, expected the next message of a sender", short(g))
			}
			want[f[5]] = want[f[5]][1:]
		case <-tm.C:
			x.Fail("only %d of %d messages arrive", n, senders*each)
		}
	}
	within(x, "End of the senders", wg.Wait)
	if e := failed.Load(); e != nil {
		x.Fail("a sender reports %v", e)
	}
	finish(x, w, addr, t, r, in)
}

// stdio: what is sent to the standard streams.
func stdio(c *mc.C, x *mc.X, depth int) {
	which := x.Choose(2)
	t := transports23[x.Choose(len(transports23))]
	how := x.Choose(2)
	rd, wr, err := os.Pipe()
	if err != nil {
		mc.Broken("%v", err)
	}
	target, addr := &os.Stdout, "stdout:"
	if which == 1 {
		target, addr = &os.Stderr, "stderr:"
	}
	saved := *target
	*target = wr
	defer func() { *target = saved; wr.Close(); rd.Close() }()
	got := make(chan string, 1)
	go func() {
		var b bytes.Buffer
		b.ReadFrom(rd)
		got <- b.String()
	}()
	var s *syslog5424.Sender
	var tick chan time.Time
	use := t
	if use == nil {
		use = syslog5424.TransportLFEnded
	}
	if how == 0 {
		if s, _, err = (syslog5424.Dialer{}).Dial("stdio", addr, t); err != nil {
			x.Fail("%v", err)
		}
	} else {
		tick = make(chan time.Time)
		s, _ = syslog5424.NewSender(syslog5424.StdioConnector(addr), use, tick)
	}
	want := ""
	n := 0
	shapes := batches(30000)
	for d := 0; d < depth; d++ {
		k := x.Choose(len(shapes) + 1)
		if k == 0 {
			break
		}
		for _, size := range shapes[k-1] {
			m, enc := sized(n, size)
			s.Send(m)
			want += framed(use, enc)
			n++
		}
		if tick != nil {
			within(x, "a flush", func() { tick <- time.Time{} })
		}
	}
	within(x, "End", s.End)
	wr.Close()
	select {
	case g := <-got:
		if g != want {
			x.Fail("%s got %s, wanted %s", addr, short(g), short(want))
		}
	case <-time.After(patience):
		mc.Broken("the pipe does not end")
	}
}

// again: the receiver goes away and another one takes its place.
func again(x *mc.X, w way, t syslog5424.Transport) {
	addr := w.address()
	tick := make(chan time.Time)
	s, errs := syslog5424.NewSender(w.connector(addr), t, tick)
	flush := func() { within(x, "a flush", func() { tick <- time.Time{} }) }
	failed := func() {
		select {
		case <-errs:
		case <-time.After(patience):
			x.Fail("no error although nobody listens")
		}
	}
	n := 0
	send := func(k int) (want []string) {
		for i := 0; i < k; i++ {
			m, enc := sized(n, 50*(n%3))
			s.Send(m)
			n++
			want = append(want, enc)
		}
		return
	}
	var want []string
	rounds := 2 + x.Choose(2)
	for i := 0; i < rounds; i++ {
		if x.Choose(2) == 1 { // messages while nobody is there
			want = append(want, send(1+x.Choose(2))...)
			flush()
			failed()
		}
		var got chan string
		var gone func()
		if w.listen == "unixgram" {
			raw := rawDatagrams(addr)
			got, gone = raw.ch, func() { raw.c.Close(); os.Remove(addr) }
		} else {
			l, err := net.Listen("unix", addr)
			if err != nil {
				mc.Broken("%v", err)
			}
			got = make(chan string, 100)
			conns := make(chan net.Conn, 1)
			go func() {
				c, err := l.Accept()
				if err != nil {
					return
				}
				conns <- c
				b := make([]byte, 1<<16)
				for {
					n, err := c.Read(b)
					if err != nil {
						return
					}
					got <- string(b[:n])
				}
			}()
			gone = func() {
				l.Close()
				select {
				case c := <-conns:
					c.Close()
				case <-time.After(patience):
					x.Fail("nobody connects")
				}
			}
		}
		want = append(want, send(1+x.Choose(2))...)
		flush()
		flush() // the first one may meet a connection that is closed
		all := ""
		for _, m := range want {
			all += framed(t, m)
		}
		tm := time.NewTimer(patience)
		for all != "" {
			mc.Tick()
			select {
			case g := <-got:
				if !strings.HasPrefix(all, g) {
					x.Fail("receiver %d gets %s, wanted %s", i, short(g), short(all))
				}
				all = all[len(g):]
			case <-tm.C:
				x.Fail("receiver %d still waits for %s", i, short(all))
			}
		}
		tm.Stop()
		select {
		case <-errs: // the closed connection of the round before
		default:
		}
		want = nil
		gone()
	}
	within(x, "End", s.End)
}

var c23 = &mc.Property{
	ID:     "C23",
	Flaky:  true,
	Hang:   120 * time.Second,
	Assume: []string{"a local socket operation that takes more than 40 s is a hang", "the loopback network and local sockets of the system work"},
	Bounds: func(deep bool) string {
		d := 2
		if deep {
			d = 3
		}
		return fmt.Sprintf("%d ways to connect (networks dialled and listened on) x default and 3 transports x sequences of up to %d batches of 6 shapes (1, 3 and 1100 messages, texts up to 200000 bytes), with flushes and with End; standard streams likewise; datagram boundaries x 3 transports x such sequences; accepted datagram connections: up to %d datagrams of 11 sizes up to 200000 bytes read by alternating pairs of 8 buffer sizes, up to %d datagrams of at most 5 bytes read by pairs of 5 small ones; several senders at once; receivers that go away and come back", len(ways), d, d, d+1)
	},
	Units: func(deep bool) (u []mc.Unit) {
		d := 2
		if deep {
			d = 3
		}
		part := func(name string, f func(c *mc.C, x *mc.X)) {
			u = append(u, mc.Unit{Name: name, Run: func(c *mc.C) { c.Enumerate(func(x *mc.X) { f(c, x) }) }})
		}
		for _, w := range ways {
			w := w
			big := 200000
			for _, t := range transports23 {
				t := t
				part("carry-"+w.name()+"-"+transportName(t), func(c *mc.C, x *mc.X) { carry(c, x, w, t, big, d) })
				if w.listen == "unixgram" && t != nil {
					part("boundaries-"+w.name()+"-"+transportName(t), func(c *mc.C, x *mc.X) { boundaries(c, x, w, t, big, d) })
				}
				if t != nil && !w.tcp() {
					part("again-"+w.name()+"-"+transportName(t), func(c *mc.C, x *mc.X) { again(x, w, t) })
				}
				if t != nil {
					part("crowd-"+w.name()+"-"+transportName(t), func(c *mc.C, x *mc.X) { crowd(x, w, t, 2+2*x.Choose(2), 300) })
				}
			}
		}
		part("stdio", func(c *mc.C, x *mc.X) { stdio(c, x, d) })
		bufs := []int{1, 3, 64, 256, 4096, 65535, 65536, 300000}
		small := []int{1, 2, 3, 4, 6}
		sizes := []int{0, 1, 2, 3, 255, 256, 4096, 65535, 65536, 65537, 200000}
		most := 10000
		if deep {
			most = 100000
		}
		for i := range bufs {
			i := i
			part(fmt.Sprintf("reads-%d", bufs[i]), func(c *mc.C, x *mc.X) { reads(c, x, sizes, bufs, i, d, most) })
		}
		for i := range small {
			i := i
			part(fmt.Sprintf("reads-small-%d", small[i]), func(c *mc.C, x *mc.X) { reads(c, x, []int{0, 1, 2, 3, 4, 5}, small, i, 1+d, most) })
		}
		return
	},
}
