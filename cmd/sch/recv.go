package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"
	"time"

	"verif/mc"
	"verif/vs"
)

// peer is what one connection carries; everything is there from the start.
type peer struct {
	frames []fr
	tail   string // the beginning of a frame
	err    error  // how it ends, nil: end of the stream
	with   bool   // the end comes with the last bytes
	cut    int    // reads: 0 one, otherwise each of at most this many bytes
}

func (p peer) conn() *rconn {
	s := ""
	for _, f := range p.frames {
		s += f.wire
	}
	s += p.tail
	c := newConn(p.cut)
	end := p.err
	if end == nil {
		end = io.EOF
	}
	c.pre = append(c.pre, chunk{b: []byte(s)})
	if p.with {
		c.pre[0].err = end
	} else {
		c.pre = append(c.pre, chunk{err: end})
	}
	return c
}

// errs counts the frames that are reported as errors.
func (p peer) errs() (n int) {
	for _, f := range p.frames {
		if f.bad {
			n++
		}
		if f.fatal {
			return
		}
	}
	return
}

func (p peer) String() string {
	var l []string
	for _, f := range p.frames {
		l = append(l, fmt.Sprintf("%q", f.wire))
	}
	return strings.Join(l, " ") + fmt.Sprintf(" %q (end %v, with the last bytes %v, reads of %d)", p.tail, p.err, p.with, p.cut)
}

type merge struct {
	t         transport
	queue     int
	peers     []peer
	consumers int
	slow      bool // nothing is received before the receiver can do nothing more
	script    []interface{}
	// C11
	accept  []error // failures of Accept before the connection of the same index (nil: none)
	endAt   int     // endLate: when everything is received; endAny: at any time
	feed    bool    // the connections are fed after the end
	nobody  bool    // nobody reads the error channel before the end
	preempt int
	fires   int
}

const (
	endLate = iota
	endAny
	endAfterAccept
)

type mergeRun struct {
	*session
	m       *merge
	conns   []*rconn
	byCons  [][]*event
	over    []bool
	started bool
	ended   bool
	atEnd   []bool // accepted when End was called
	endEv   int    // events received before End was called
}

// body runs the scenario.
func (m *merge) body() *mergeRun {
	r := &mergeRun{m: m, byCons: make([][]*event, m.consumers), over: make([]bool, m.consumers)}
	var script []interface{}
	for i, p := range m.peers {
		if i < len(m.accept) && m.accept[i] != nil {
			script = append(script, m.accept[i])
		}
		c := p.conn()
		if m.feed {
			c.pre, c.ch = nil, make(chan chunk)
		}
		r.conns = append(r.conns, c)
		script = append(script, c)
	}
	for i := len(m.peers); i < len(m.accept); i++ {
		script = append(script, m.accept[i])
	}
	r.session = start(m.t, m.queue, script...)
	start := make(chan int)
	for i := 0; i < m.consumers; i++ {
		i := i
		vs.GoH("consumer", func() {
			if m.slow {
				vs.Recv2(start)
			}
			for {
				msg, err, ok := r.r.Receive()
				if !ok {
					r.over[i] = true
					return
				}
				e := &event{m: msg, err: err}
				if err == nil {
					e.was = fields(msg)
				}
				r.byCons[i] = append(r.byCons[i], e)
			}
		})
	}
	switch m.endAt {
	case endLate:
		vs.WaitIdle()
		if m.slow {
			vs.Close(start)
			vs.WaitIdle()
		}
		for n := 0; n < len(m.accept); n++ { // an accept failure is waited for
			vs.Sleep(time.Second)
			vs.WaitIdle()
		}
		r.got = drain(r.errs)
		r.r.End()
	case endAny:
		if m.slow {
			vs.Close(start)
		}
		r.r.End()
	case endAfterAccept:
		vs.WaitIdle()
		for n := 0; n < len(m.accept); n++ {
			vs.Sleep(time.Second)
			vs.WaitIdle()
		}
		r.got = drain(r.errs)
		for _, c := range r.conns {
			if c.reads == 0 {
				r.fail("a connection is not read")
			}
		}
		r.r.End()
		if m.slow {
			vs.Close(start)
		}
		vs.WaitIdle()
		if r.l.closed != 1 {
			r.fail("the listener is closed %d times after End", r.l.closed)
		}
		for _, o := range r.over {
			if o {
				r.fail("Receive reports the end while connections are open")
			}
		}
		for i, c := range r.conns {
			if r.bad != "" {
				return r
			}
			p := m.peers[i].conn()
			for _, k := range p.pre {
				if c.closed == 0 {
					vs.SendTo(c.ch)(k)
				}
			}
			if m.peers[i].with || len(m.peers[i].frames) > 0 {
				vs.WaitIdle()
			}
		}
	}
	vs.WaitIdle()
	r.ended = true
	return r
}

// judge looks at the end of an execution.
func (r *mergeRun) judge() string {
	if r.bad != "" {
		return r.bad
	}
	for i, o := range r.over {
		if !o {
			return fmt.Sprintf("consumer %d is not told about the end", i)
		}
	}
	if r.l.misused {
		return "what came with an error of Accept is taken for a connection"
	}
	if r.l.closed != 1 {
		return fmt.Sprintf("the listener is closed %d times", r.l.closed)
	}
	if r.l.late > 1 {
		return fmt.Sprintf("Accept is called %d times after End", r.l.late)
	}
	var all []*event
	nerr := 0
	for _, l := range r.byCons {
		all = append(all, l...)
	}
	got := map[string]int{}
	for _, e := range all {
		if e.err != nil {
			nerr++
			continue
		}
		if f := fields(e.m); f != e.was {
			return fmt.Sprintf("the message %q changed to %q", e.was, f)
		}
		got[e.was]++
	}
	wantErr := 0
	accepted := 0
	for i, p := range r.m.peers {
		c := r.conns[i]
		taken := c.taken
		if taken {
			accepted++
		}
		if c.after > 0 {
			return fmt.Sprintf("%d reads after the end of connection %d", c.after, i)
		}
		want := 1
		if !taken {
			want = 0
			if r.m.endAt != endAny {
				return fmt.Sprintf("connection %d is not accepted", i)
			}
		}
		if c.closed != want {
			return fmt.Sprintf("connection %d, accepted: %v, is closed %d times", i, taken, c.closed)
		}
		if taken {
			wantErr += p.errs()
			if p.tail != "" && p.err == nil {
				wantErr++
			}
			if p.tail != "" && p.err != nil { // may be one
				wantErr += 1000
			}
		}
		last := make([]int, r.m.consumers)
		for k, f := range p.frames {
			if f.fatal {
				break
			}
			if f.bad {
				continue
			}
			w := parsedAlone(f.payload)
			n := 0
			if taken {
				n = 1
			}
			if got[w] != n {
				return fmt.Sprintf("message %q of connection %d (accepted: %v) is received %d times; received: %s", f.payload, i, taken, got[w], r)
			}
			delete(got, w)
			_ = k
			for ci, l := range r.byCons {
				for at, e := range l {
					if e.err == nil && e.was == w {
						if at+1 < last[ci] {
							return fmt.Sprintf("message %q of connection %d is received too early: %s", f.payload, i, r)
						}
						last[ci] = at + 1
					}
				}
			}
		}
	}
	if len(got) > 0 {
		for s := range got {
			return fmt.Sprintf("message %q is received, which nobody sent", s)
		}
	}
	if nerr != wantErr%1000 && (wantErr < 1000 || nerr > wantErr%1000+wantErr/1000 || nerr < wantErr%1000) {
		return fmt.Sprintf("%d frames are reported as errors, wanted %d: %s", nerr, wantErr%1000, r)
	}
	// the order of errors among messages, for one consumer and one connection
	if r.m.consumers == 1 && len(r.m.peers) == 1 && r.conns[0].taken {
		k := 0
		for _, f := range r.m.peers[0].frames {
			e := all[k]
			if f.bad != (e.err != nil) {
				return fmt.Sprintf("frame %d is received out of order: %s", k, r)
			}
			k++
			if f.fatal {
				break
			}
		}
	}
	if r.m.endAt != endAny {
		return r.reports()
	}
	return ""
}

// reports checks the error channel at a time when nothing was ended.
func (r *mergeRun) reports() string {
	var want []error
	for i, p := range r.m.peers {
		if i < len(r.m.accept) && r.m.accept[i] != nil {
			want = append(want, r.m.accept[i])
		}
		fatal := false
		for _, f := range p.frames {
			fatal = fatal || f.fatal
		}
		if p.err != nil && r.m.endAt == endLate && (!fatal || p.with) {
			want = append(want, p.err)
		}
	}
	for i := len(r.m.peers); i < len(r.m.accept); i++ {
		want = append(want, r.m.accept[i])
	}
	if len(want) > 0 && len(r.got) == 0 {
		return fmt.Sprintf("nothing is reported of the failures %v", want)
	}
	if len(want) <= 1 && len(r.got) != len(want) {
		return fmt.Sprintf("reported: %v, wanted %v", r.got, want)
	}
	for _, g := range r.got {
		found := false
		for i, w := range want {
			if g == w {
				want = append(want[:i:i], want[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("reported: %v, which did not happen that often", r.got)
		}
	}
	return ""
}

func (r *mergeRun) String() string {
	var l []string
	for i, c := range r.byCons {
		for _, e := range c {
			if e.err != nil {
				l = append(l, fmt.Sprintf("consumer %d: error %v", i, e.err))
			} else {
				l = append(l, fmt.Sprintf("consumer %d: %q", i, e.m.String()))
			}
		}
	}
	return strings.Join(l, ", ")
}

func (m *merge) unit(name string) mc.Unit {
	var r *mergeRun
	if m.consumers == 0 {
		m.consumers = 1
	}
	return unit(name, vs.Cfg{Preempt: m.preempt, MaxFires: m.fires, MaxSteps: 20000}, func() {
		r = nil
		r = m.body()
	}, func(o *vs.Outcome) string {
		s := settled(o)
		if s == "" {
			s = r.judge()
		}
		if s != "" {
			for i, p := range m.peers {
				s += fmt.Sprintf("\n  connection %d: %v", i, p)
			}
			s += fmt.Sprintf("\n  transport %s, queue %d, %d consumers, slow %v, accept failures %v", m.t.name, m.queue, m.consumers, m.slow, m.accept)
		}
		return s
	})
}

// tagged makes the frames of a connection: g is a message, anything else a malformed one.
func tagged(t transport, conn int, kinds string) (l []fr) {
	for i, k := range kinds {
		m := fmt.Sprintf("<1%d>1 - h%d - - m%d [c n=\"%d\"] c%d m%d", conn, conn, i, i, conn, i)
		switch k {
		case 'g':
			l = append(l, good(t, m))
		case 'G': // a longer one
			l = append(l, good(t, m+strings.Repeat("x", 70000)))
		case 'b':
			l = append(l, malformed(t, m[:len(m)/2]))
		case 'h':
			l = append(l, fr{wire: "x1 " + m, bad: true, fatal: true})
		}
	}
	return
}

// errors of a connection and of an Accept: plain ones and those of package net, temporary, timed out or neither.
var errPeer = []error{errors.New("peer 0 failed"), &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ETIMEDOUT}, errors.New("peer 3 failed")}
var errAccept = func() (l []error) {
	for i := 0; i < 14; i++ {
		e := fmt.Errorf("accept failure %d", i)
		switch i % 4 {
		case 0:
			e = &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EPROTO}
		case 1:
			e = &net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}
		case 2:
			e = &net.OpError{Op: "accept", Net: "tcp", Err: syscall.ETIMEDOUT}
		}
		l = append(l, e)
	}
	return
}()

// peersOf makes peers of words like "gg", "gb!", "g~": frames, then ! for a read error, ? for one with the last
// bytes, ~ for a truncated frame, = for an end with the last bytes, % for reads of 20 bytes.
func peersOf(t transport, words ...string) (l []peer) {
	for i, w := range words {
		p := peer{frames: tagged(t, i, strings.Trim(w, "!?~=%"))}
		if strings.Contains(w, "!") {
			p.err = errPeer[i]
		}
		if strings.Contains(w, "?") {
			p.err, p.with = errPeer[i], true
		}
		if strings.Contains(w, "=") {
			p.with = true
		}
		if strings.Contains(w, "~") {
			p.tail = t.frame("<13>1 - - - -" + strings.Repeat(" ", i))[:9]
		}
		if strings.Contains(w, "%") {
			p.cut = 20
		}
		l = append(l, p)
	}
	return
}

func init() {
	reg(&mc.Property{ID: "C10", Assume: append([]string{"a connection gives its bytes and its end when it is read (C07 and C08 cut the streams)"}, trust...),
		Bounds: func(deep bool) string {
			return "2 and 3 connections of up to 3 frames each (well formed, malformed, longer than the buffer, truncated, with failing reads, read at once or in pieces), queues of 0 to 2 places, one or two consumers, prompt or waiting until the receiver is stuck; all schedules with at most 3 (pairs with one consumer), 2 or 1 (others) preemptions (thorough: one more, and all schedules of the pairs of one frame), every execution under the race detector; up to 300 (thorough 2100) connections at the same time or one after the other, ended or failing, with queues of up to 100 places, and a consumer of up to 36 messages that waits 1 ms to 400 days before one or each of them, End before it or not (two schedules each)"
		},
		Units: func(deep bool) (u []mc.Unit) {
			add := func(t transport, queue, consumers int, slow bool, pre int, words ...string) {
				m := &merge{t: t, queue: queue, consumers: consumers, slow: slow, peers: peersOf(t, words...), preempt: pre}
				u = append(u, m.unit(fmt.Sprintf("%s-q%d-c%d-slow%v-p%d-%s", t.name, queue, consumers, slow, pre, strings.Join(words, "|"))))
			}
			pairs := [][]string{{"g", "g"}, {"gg", "gg"}, {"gb", "gg"}, {"g!", "gg"}, {"gg~", "g"}, {"gbg=", "g?"}, {"bgg%", "gg%"}, {"G", "gg"}, {"gGg%=", "G"}, {"ggg", "ggg"}, {"~!", "ggg"}, {"b", "b"}}
			triples := [][]string{{"g", "g", "g"}, {"gg", "g!", "gb"}, {"b", "gg=", "g~"}}
			if deep {
				triples = append(triples, []string{"gg", "gg", "gg"}, []string{"gg?", "bb", "G"})
			}
			for ti, t := range transports {
				for _, w := range pairs {
					for queue := 0; queue < 3; queue++ {
						pre := 3
						if deep {
							pre = 4
						}
						if strings.Contains(w[0]+w[1], "G") && strings.Contains(w[0]+w[1], "%") {
							continue
						}
						add(t, queue, 1, false, pre, w...)
						add(t, queue, 1, true, pre, w...)
						if queue == ti || deep {
							add(t, queue, 2, false, pre-1-len(w[0]+w[1])/4, w...)
						}
					}
				}
				for _, w := range triples {
					for queue := 0; queue < 3; queue++ {
						pre := 1
						if deep {
							pre = 2
						}
						add(t, queue, 1, false, pre, w...)
						add(t, queue, 1, true, pre, w...)
					}
				}
				if deep {
					for queue := 0; queue < 3; queue++ {
						add(t, queue, 1, false, -1, "g", "g")
						add(t, queue, 1, true, -1, "g", "g")
						add(t, queue, 2, false, -1, "g", "g")
						add(t, queue, 1, false, 1, "g", "g", "g", "g")
					}
				}
			}
			for queue := 0; queue < 3; queue++ {
				t := transports[2]
				add(t, queue, 1, false, 2, "gh", "gg")
				add(t, queue, 1, true, 2, "hg", "gg")
				add(t, queue, 1, false, 1, "gh", "g", "gb")
			}
			for _, t := range transports {
				u = append(u, crowd(t, deep, 0, 1, 2, 3, 4), leisure(t, deep))
			}
			return
		}})

	reg(&mc.Property{ID: "C11", Assume: append([]string{"Accept fails once the listener is closed", "the consumer goes on receiving until the end"}, trust...),
		Bounds: func(deep bool) string {
			return "0 to 3 connections of up to 2 frames, Accept failing before, between and after them (up to 3 times anywhere, 12 times with nobody reading the reports, up to 300 (thorough 2100) times in a row, and 4097 times, along two schedules), queues of 0 to 2 places, prompt or slow consumer; End when everything is received, at any point of the schedule, or while accepted connections are still open and send afterwards; all schedules with at most 2 preemptions (thorough: 3), pauses after failures in virtual time; and the library's own listeners (unixgram, unix, tcp) in a virtual network, 0 to 2 clients sending up to 3 frames one by one or grouped, at most 2 datagrams waiting in one unit per End, queues of 0 and 1 places, End after everything, while the clients send, or at any time"
		},
		Units: func(deep bool) (u []mc.Unit) {
			pre := 2
			if deep {
				pre = 3
			}
			add := func(name string, m *merge) {
				m.preempt = pre
				if m.fires == 0 && len(m.accept) > 0 {
					m.fires = 3*len(m.accept) + 2
				}
				if len(m.peers)+len(m.accept) > 3 {
					m.preempt--
				}
				u = append(u, m.unit(fmt.Sprintf("%s-q%d-slow%v", name, m.queue, m.slow)))
			}
			words := [][]string{{}, {"g"}, {"gg", "g"}, {"gb", "g!"}, {"g", "g", "g"}}
			accepts := [][]int{{}, {1}, {0, 1}, {1, 1}, {1, 1, 1}, {0, 0, 1}}
			for ti, t := range transports {
				for wi, w := range words {
					for ai, a := range accepts {
						var acc []error
						for i, x := range a {
							if x == 1 {
								acc = append(acc, errAccept[i])
							} else {
								acc = append(acc, nil)
							}
						}
						for n := len(w); n < len(acc); n++ {
							if acc[n] == nil {
								acc = append(acc[:n:n], acc[n+1:]...)
							}
						}
						for queue := 0; queue < 3; queue++ {
							if !deep && (queue+ai+wi)%3 != ti {
								continue
							}
							name := fmt.Sprintf("%s-%s-%v", t.name, strings.Join(w, "|"), a)
							add(name+"-late", &merge{t: t, queue: queue, peers: peersOf(t, w...), accept: acc, endAt: endLate})
							add(name+"-any", &merge{t: t, queue: queue, peers: peersOf(t, w...), accept: acc, endAt: endAny})
							add(name+"-any", &merge{t: t, queue: queue, peers: peersOf(t, w...), accept: acc, endAt: endAny, slow: true})
							if len(w) > 0 {
								add(name+"-open", &merge{t: t, queue: queue, peers: peersOf(t, w...), accept: acc, endAt: endAfterAccept, feed: true})
								add(name+"-open", &merge{t: t, queue: queue, peers: peersOf(t, w...), accept: acc, endAt: endAfterAccept, feed: true, slow: true})
							}
						}
					}
				}
				many := &merge{t: t, queue: 1, peers: peersOf(t, "g"), accept: []error{errAccept[0]}, endAt: endLate}
				for i := 1; i < 12; i++ {
					many.accept = append(many.accept, errAccept[i])
				}
				many.fires = 60
				add(t.name+"-many", many)
			}
			for _, t := range transports {
				u = append(u, refusals(t, deep))
			}
			u = append(u, lsUnits(deep)...)
			return
		}})
}
