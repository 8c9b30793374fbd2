package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
)

// Scenarios in which something is large or numerous: sizes, numbers of messages, of failures, of connections.

// around lists the numbers from lo to hi that are at most below under and at most above over a power of 2 or 10.
func around(lo, hi, below, above int) (l []int) {
	seen := map[int]bool{}
	for _, base := range []int{2, 10} {
		for p := 1; p <= hi+below; p *= base {
			for n := p - below; n <= p+above; n++ {
				if n >= lo && n <= hi && !seen[n] {
					seen[n] = true
					l = append(l, n)
				}
			}
		}
	}
	sort.Ints(l)
	return
}

var sizedMsgs = map[int]int{}

// message of n bytes: its index in msgs
func message(n int) int {
	if i, ok := sizedMsgs[n]; ok {
		return i
	}
	i := len(msgs)
	head := fmt.Sprintf("<13>1 2003-10-11T22:14:15Z h a p s%d - ", i)
	txt := make([]byte, n-len(head))
	for k := range txt {
		txt[k] = byte('a' + (k/7)%26)
	}
	txt[len(txt)-1] = '.'
	msgs = append(msgs, syslog5424.CreateWholeMessage(13, time.Date(2003, 10, 11, 22, 14, 15, 0, time.UTC), "h", "a", "p", fmt.Sprintf("s%d", i), string(txt)))
	wires = append(wires, head+string(txt))
	sizedMsgs[n] = i
	return i
}

// largeSizes are around the powers such that the frames of all transports are at them, too.
func largeSizes(deep bool) []int {
	if deep {
		return around(60, 1<<21, 9, 1)
	}
	return append(around(60, 70000, 9, 1), around(70001, 1<<20, 1, 1)...)
}

// large: messages of every size, among others, on a connection that may fail once.
func large(t transport, faults bool, sizes []int) (u []mc.Unit) {
	const parts = 4
	fails := []outcome{wOK}
	if faults {
		fails = []outcome{wErr0, wErrHalf, wErrAlmost, wErrAll, wNoBufs, wNoBufsHalf}
	}
	for part := 0; part < parts; part++ {
		var mine []int
		for i := part; i < len(sizes); i += parts {
			mine = append(mine, sizes[i])
		}
		type run struct {
			d   *dest
			all []*sent
			bad string
			n   int
		}
		var r *run
		u = append(u, prepared(func() {
			for _, n := range mine {
				message(n)
				message(n + 100)
			}
		}, unit(fmt.Sprintf("large-%s-%v-%d", t.name, faults, part), vs.Cfg{Preempt: 0, MaxSteps: 20000}, func() {
			q := &run{d: &dest{}}
			r = q
			tick := make(chan time.Time)
			q.n = mine[pick(len(mine), "size")]
			big := message(q.n)
			list := []int{0, big, 1}
			switch pick(3, "messages") {
			case 1:
				list = []int{big}
			case 2:
				list = []int{0, 1, big, message(q.n + 100), 2}
			}
			fail := fails[pick(len(fails), "failure")]
			ticks := pick(3, "ticks") // after every message, at the end, none
			s, errs := syslog5424.NewSender(q.d, t.t, tick)
			q.d.down, q.d.downFor = fail, 1
			q.d.downFrom = pick(2, "first failure") * len(list) / 2
			for k, i := range list {
				x := &sent{msg: i, idx: k}
				q.all = append(q.all, x)
				x.err = s.Send(msgs[i])
				x.done = true
				if ticks == 0 || ticks == 1 && k == len(list)-1 {
					vs.SendTo(tick)(time.Time{})
					vs.WaitIdle()
					drain(errs)
				}
			}
			s.End()
			for it := vs.Range(errs); it.Next(); {
			}
		}, func(o *vs.Outcome) string {
			if msg := settled(o); msg != "" {
				return msg
			}
			for _, x := range r.all {
				if x.err != nil {
					return fmt.Sprintf("Send of %d bytes: %v", len(wires[x.msg]), x.err)
				}
			}
			if _, msg := r.d.stream(t, r.all, true); msg != "" {
				return fmt.Sprintf("messages of %d bytes: %s", r.n, clipped(msg))
			}
			return ""
		})))
	}
	return
}

// lastly: the destination fails some times in a row while End waits for it.
func lastly(t transport, deep bool) mc.Unit {
	type run struct {
		d    *dest
		all  []*sent
		bad  string
		desc string
	}
	var r *run
	lengths := around(1, 130, 1, 1)
	if deep {
		lengths = around(1, 1030, 1, 1)
	}
	fails := []outcome{wConnect, wErr0, wErrHalf, wErrAll, wNoBufs, wNoBufsHalf}
	return unit("lastly-"+t.name, vs.Cfg{Preempt: 0, MaxFires: 5000, Lazy: true, MaxSteps: 400000}, func() {
		q := &run{d: &dest{}}
		r = q
		tick := make(chan time.Time)
		n := lengths[pick(len(lengths), "length")]
		fail := fails[pick(len(fails), "failure")]
		count := []int{1, 3, 70}[pick(3, "messages")]
		before := pick(2, "connected before") == 1
		read := pick(2, "read the errors") == 1
		q.desc = fmt.Sprintf("%d failures (%d) in a row, %d messages", n, fail, count)
		s, errs := syslog5424.NewSender(q.d, t.t, tick)
		over := make(chan int, 1)
		if read {
			vs.GoH("reader", func() {
				for it := vs.Range(errs); it.Next(); {
				}
				vs.SendTo(over)(1)
			})
		}
		send := func(k int) {
			for i := 0; i < k; i++ {
				x := &sent{msg: len(q.all), idx: len(q.all)}
				q.all = append(q.all, x)
				x.err = s.Send(msgs[x.msg])
				x.done = true
			}
		}
		if before {
			send(1)
			vs.SendTo(tick)(time.Time{})
			vs.WaitIdle()
		}
		send(count)
		q.d.down, q.d.downFor = fail, n
		s.End()
		if _, msg := q.d.stream(t, q.all, true); msg != "" {
			q.bad = "when End returned: " + msg
		}
		if read {
			vs.Recv(over)
		} else {
			for it := vs.Range(errs); it.Next(); {
			}
		}
	}, func(o *vs.Outcome) string {
		msg := settled(o)
		if msg == "" {
			msg = r.bad
		}
		if msg == "" {
			msg = r.d.closedOnce()
		}
		for _, x := range r.all {
			if x.err != nil && msg == "" {
				msg = "Send: " + x.err.Error()
			}
		}
		if msg != "" {
			return r.desc + ": " + clipped(msg)
		}
		return ""
	})
}

// serially explores f, which tells what is wrong, along two schedules for each of its choices.
func serially(name string, fires int, f func() string) mc.Unit {
	return seriallyUpTo(2000000, name, fires, f)
}

func seriallyUpTo(steps int, name string, fires int, f func() string) mc.Unit {
	var bad string
	return mc.Unit{Name: name, Run: func(c *mc.C) {
		for _, mode := range []int{1, 2} {
			c.Explore(mc.Sched{Cfg: vs.Cfg{Preempt: 0, MaxFires: fires, Lazy: true, MaxSteps: steps, Serial: mode}, Body: func() {
				bad = ""
				bad = f()
			}, Check: func(o *vs.Outcome) string {
				if m := settled(o); m != "" {
					return m
				}
				return bad
			}})
		}
	}}
}

// queueLen chooses the length of the queue of a receiver.
func queueLen() int { return []int{0, 1, 10, 100}[pick(4, "queue")] }

// thousands are the numbers of repetitions that are too many to be combined with everything else: the choices that
// follow are the first ones, unless they are said to matter.
func thousands(deep bool, most int) (l []int) {
	for _, n := range []int{1025, 4097, 10001, 65537} {
		if n <= most || deep && n < 20000 {
			l = append(l, n)
		}
	}
	return
}

// amount chooses a number of repetitions and gives the way to choose the rest.
func amount(counts, many []int, what string) (int, func(n int, what string) int) {
	k := pick(len(counts)+len(many), what)
	if k < len(counts) {
		return counts[k], pick
	}
	return many[k-len(counts)], func(int, string) int { return 0 }
}

func numbered(i int) string { return fmt.Sprintf("<13>1 - - - - - - number %d", i) }

// hold gives one thing to the connection and looks at what is received.
func (s *session) expect(what string, want ...string) {
	vs.WaitIdle()
	if s.bad != "" {
		return
	}
	if len(s.events) != len(want) {
		s.fail("%s: %d messages and errors are received, wanted %d", what, len(s.events), len(want))
		return
	}
	for i, w := range want {
		e := s.events[i]
		if (w == "") != (e.err != nil) || w != "" && e.was != w {
			s.fail("%s: number %d is %q (%v), wanted %q", what, i, clipped(e.was), e.err, clipped(w))
			return
		}
	}
}

// give sends a chunk to a connection that must be read.
func (s *session) give(c *rconn, b string, err error) {
	vs.WaitIdle()
	if s.bad != "" {
		return
	}
	if c.closed > 0 {
		s.fail("the connection is closed, and %q was not read", clipped(b))
		return
	}
	vs.SendTo(c.ch)(chunk{[]byte(b), err})
}

// patient: reads that give nothing, and time that passes, between and in the frames.
func patient(t transport, deep bool) mc.Unit {
	counts := around(1, 260, 1, 1)
	if deep {
		counts = around(1, 5000, 1, 1)
	}
	waits := []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 15 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour}
	return serially("patient-"+t.name, 100, func() string {
		n, wait := 0, time.Duration(0)
		if k := pick(len(counts)+len(waits), "patience"); k < len(counts) {
			n = counts[k]
		} else {
			wait = waits[k-len(counts)]
		}
		where := pick(5, "where")
		end := pick(2, "end with the last bytes")
		c := newConn(0)
		s := start(t, queueLen(), c)
		vs.GoH("consumer", s.consume)
		pause := func(at int) {
			if where != at && where != 4 {
				return
			}
			vs.WaitIdle()
			for i := 0; i < n; i++ {
				s.give(c, "", nil)
			}
			if wait > 0 {
				vs.Sleep(wait)
			}
		}
		f, g := t.frame(numbered(0)), t.frame(numbered(1))
		pause(0)
		s.give(c, f[:9], nil)
		pause(1)
		s.give(c, f[9:], nil)
		s.expect("after a frame", numbered(0))
		pause(2)
		if end == 1 {
			s.give(c, g, io.EOF)
		} else {
			s.give(c, g, nil)
			s.expect("after another frame", numbered(0), numbered(1))
			pause(3)
			s.give(c, "", io.EOF)
		}
		s.expect("at the end", numbered(0), numbered(1))
		if c.closed != 1 {
			s.fail("the connection is closed %d times", c.closed)
		}
		if l := drain(s.errs); len(l) > 0 {
			s.fail("errors reported: %v", l)
		}
		s.finish()
		if s.bad != "" {
			return fmt.Sprintf("%s (%d empty reads, a pause of %v)", s.bad, n, wait)
		}
		return ""
	})
}

// leisure: a consumer that takes its time before, between and after what it receives, End or not.
func leisure(t transport, deep bool) mc.Unit {
	waits := []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 4 * time.Second, 15 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour}
	return serially("leisure-"+t.name, 1000, func() string {
		wait := waits[pick(len(waits), "wait")]
		conns, frames := 1+pick(3, "connections"), []int{1, 3, 12}[pick(3, "frames")]
		together := pick(2, "in one read") == 1
		early := pick(2, "End before anything is received") == 1
		where := pick(3, "where")
		var script []interface{}
		var cs []*rconn
		var want []string
		for i := 0; i < conns; i++ {
			c := newConn(0)
			cs, script = append(cs, c), append(script, c)
		}
		s := start(t, []int{0, 1, 5}[pick(3, "queue")], script...)
		gone := false
		for i, c := range cs {
			i, c := i, c
			var wire string
			var l []string
			for k := 0; k < frames; k++ {
				want = append(want, numbered(100*i+k))
				l = append(l, t.frame(numbered(100*i+k)))
				wire += l[k]
			}
			vs.GoH("peer", func() {
				if together {
					vs.SendTo(c.ch)(chunk{[]byte(wire), io.EOF})
					return
				}
				for _, f := range l {
					vs.SendTo(c.ch)(chunk{[]byte(f), nil})
				}
				vs.SendTo(c.ch)(chunk{nil, io.EOF})
			})
		}
		if early && together { // everything is read before End
			vs.WaitIdle()
			vs.GoH("end", func() {
				s.r.End()
				gone = true
			})
		}
		vs.GoH("consumer", func() {
			for n := 0; ; n++ {
				if where == 0 && n == 0 || where == 1 && n == 1 || where == 2 {
					vs.WaitIdle()
					vs.Sleep(wait)
				}
				m, err, ok := s.r.Receive()
				if !ok {
					s.closed = true
					return
				}
				e := &event{m: m, err: err}
				if err == nil {
					e.was = m.String()
				}
				s.events = append(s.events, e)
			}
		})
		for i := 0; i < conns*frames+3; i++ {
			vs.WaitIdle()
			vs.Sleep(2 * wait)
		}
		vs.WaitIdle()
		got := map[string]int{}
		for _, e := range s.events {
			if e.err != nil {
				s.fail("an error is received: %v", e.err)
			}
			got[e.was]++
		}
		for _, w := range want {
			if got[w] != 1 {
				s.fail("%q is received %d times", w, got[w])
			}
		}
		if len(s.events) != len(want) {
			s.fail("%d messages and errors are received, wanted %d", len(s.events), len(want))
		}
		for _, c := range cs {
			if c.closed != 1 {
				s.fail("a connection is closed %d times", c.closed)
			}
		}
		if l := drain(s.errs); len(l) > 0 {
			s.fail("errors reported: %v", l)
		}
		if early && together {
			if !gone {
				s.fail("End does not return")
			}
		} else {
			vs.GoH("end", s.r.End)
			vs.WaitIdle()
			vs.Sleep(2 * wait)
			vs.WaitIdle()
		}
		if !s.closed {
			s.fail("Receive does not report the end after End")
		}
		vs.Quietly(s.again)
		if s.bad != "" {
			return fmt.Sprintf("%s (the consumer waits %v)", s.bad, wait)
		}
		return ""
	})
}

// garbage: many malformed frames on a connection, good ones among them.
func garbage(t transport, deep bool) mc.Unit {
	counts := around(1, 300, 1, 1)
	if deep {
		counts = around(1, 5000, 1, 1)
	}
	kinds := []string{"x", "<13>1 - - - - - x", "<13>1 - h a p m [id a=\"", strings.Repeat("garbage ", 100)}
	return serially("garbage-"+t.name, 0, func() string {
		n, choose := amount(counts, thousands(deep, 65537), "malformed")
		kind := kinds[choose(len(kinds), "kind")]
		every := []int{0, 1, 10}[pick(3, "good ones")]
		c := newConn(0)
		s := start(t, queueLen(), c)
		vs.GoH("consumer", s.consume)
		var want []string
		var data []byte
		reads := choose(2, "reads") == 1
		for i := 0; i < n; i++ {
			data = append(data, t.frame(kind)...)
			want = append(want, "")
			if every > 0 && i%every == every-1 {
				data = append(data, t.frame(numbered(i))...)
				want = append(want, numbered(i))
			}
			if reads || i == n-1 {
				s.give(c, string(data), nil)
				data = nil
			}
		}
		s.expect("after the malformed frames", want...)
		s.give(c, t.frame(numbered(n)), nil)
		want = append(want, numbered(n))
		s.expect("after a good frame", want...)
		s.give(c, "", io.EOF)
		s.expect("at the end", want...)
		if l := drain(s.errs); len(l) > 0 {
			s.fail("errors reported: %v", l)
		}
		s.finish()
		if s.bad != "" {
			return fmt.Sprintf("%s (%d times %q)", s.bad, n, clipped(kind))
		}
		return ""
	})
}

// torrent: many good frames on a connection.
func torrent(t transport, deep bool) mc.Unit {
	counts := thousands(deep, 65537)
	return serially("torrent-"+t.name, 0, func() string {
		n := counts[pick(len(counts), "frames")]
		size := []int{1 << 30, 70000, 1000}[pick(3, "bytes at once")]
		c := newConn(0)
		s := start(t, queueLen(), c)
		vs.GoH("consumer", s.consume)
		want := make([]string, n)
		data := make([]byte, 0, 40*n)
		for i := range want {
			want[i] = numbered(i)
			data = append(data, t.frame(want[i])...)
		}
		for len(data) > size {
			s.give(c, string(data[:size]), nil)
			data = data[size:]
		}
		s.give(c, string(data), nil)
		s.expect("after the frames", want...)
		s.give(c, "", io.EOF)
		s.expect("at the end", want...)
		if l := drain(s.errs); len(l) > 0 {
			s.fail("errors reported: %v", l)
		}
		s.finish()
		if s.bad != "" {
			return fmt.Sprintf("%s (%d frames)", s.bad, n)
		}
		return ""
	})
}

// crowd: many connections, open at the same time or one after the other.
func crowd(t transport, deep bool, kinds ...int) mc.Unit {
	counts := around(1, 300, 1, 1)
	if deep {
		counts = around(1, 2100, 1, 1)
	}
	return serially("crowd-"+t.name, 0, func() string {
		n, choose := amount(counts, nil, "connections")
		kind := kinds[pick(len(kinds), "kind")] // 0: open at the same time; one after the other, each 1: ended, 2: failing, 3: ended by garbage; 4: two at a time
		var conns []*rconn
		var script []interface{}
		for i := 0; i <= n; i++ {
			conns = append(conns, newConn(0))
			script = append(script, conns[i])
		}
		s := start(t, queueLen(), script...)
		slow := kind == 0 && choose(2, "slow consumer") == 1
		if !slow {
			vs.GoH("consumer", s.consume)
		}
		var want []string
		failure := errors.New("failure")
		for i, c := range conns {
			if kind == 4 && i > 0 {
				s.give(conns[i-1], "", io.EOF)
			}
			want = append(want, numbered(i))
			switch {
			case kind == 0 || kind == 4:
				s.give(c, t.frame(numbered(i)), nil)
			case kind == 1 || i == n:
				s.give(c, t.frame(numbered(i)), io.EOF)
			case kind == 2:
				s.give(c, t.frame(numbered(i)), failure)
			case kind == 3:
				g := "x"
				if t.name == "rfc5425" {
					g = "x y"
				}
				s.give(c, t.frame(numbered(i))+g, nil)
				if t.name != "rfc5425" {
					s.give(c, "", io.EOF)
				}
				want = append(want, "")
			}
			if !slow {
				s.expect(fmt.Sprintf("connection %d", i), want...)
			}
		}
		if slow {
			vs.WaitIdle()
			vs.GoH("consumer", s.consume)
			vs.WaitIdle()
			sort.Slice(s.events, func(i, j int) bool { // the connections are concurrent
				a, b := s.events[i], s.events[j]
				return len(a.was) < len(b.was) || len(a.was) == len(b.was) && a.was < b.was
			})
			s.expect("from all connections", want...)
		}
		for i, c := range conns {
			if kind == 0 {
				s.give(c, "", io.EOF)
			}
			if kind == 4 && i == n {
				s.give(c, "", io.EOF)
			}
		}
		s.expect("at the end", want...)
		for i, c := range conns {
			if c.closed != 1 {
				s.fail("connection %d is closed %d times", i, c.closed)
			}
		}
		l := drain(s.errs)
		if kind == 2 && (len(l) == 0 || l[0] != failure || len(l) > n) || kind != 2 && len(l) > 0 {
			s.fail("errors reported: %v", l)
		}
		s.finish()
		if s.bad != "" {
			return fmt.Sprintf("%s (%d connections, kind %d)", s.bad, n, kind)
		}
		return ""
	})
}

// refusals: Accept fails many times in a row, between connections.
func refusals(t transport, deep bool) mc.Unit {
	counts := around(1, 300, 1, 1)
	if deep {
		counts = around(1, 2100, 1, 1)
	}
	return serially("refusals-"+t.name, 20000, func() string {
		n, pick := amount(counts, thousands(deep, 4097), "failures")
		read := pick(2, "read the errors") == 1
		same := pick(2, "the same failure") == 1
		var script []interface{}
		var fails []error
		a, b := newConn(0), newConn(0)
		first := pick(2, "connection before") == 1
		if first {
			script = append(script, a)
		}
		for i := 0; i < n; i++ {
			e := errAccept[0]
			if !same {
				e = fmt.Errorf("accept failure %d", i)
				if k := i % 5; k < 4 {
					e = &net.OpError{Op: "accept", Net: "tcp", Err: errAccept[k]}
				}
			}
			fails = append(fails, e)
			script = append(script, e)
		}
		s := start(t, 1, append(script, b)...)
		vs.GoH("consumer", s.consume)
		var got []error
		for i := 0; i < n; i++ {
			vs.Sleep(time.Hour)
			if read {
				l := drain(s.errs)
				got = append(got, l...)
				if i == 0 && len(l) == 0 {
					s.fail("the first failure is not reported")
				}
			}
		}
		vs.Sleep(1000 * time.Hour)
		got = append(got, drain(s.errs)...)
		if len(got) == 0 || len(got) > n {
			s.fail("%d failures, reported: %d", n, len(got))
		}
		k := 0
		for _, e := range got {
			for k < n && fails[k] != e {
				k++
			}
			if k == n {
				s.fail("%v is reported, which did not happen then", e)
				break
			}
			k++
		}
		var want []string
		if first {
			s.give(a, t.frame(numbered(0)), io.EOF)
			want = append(want, numbered(0))
		}
		vs.WaitIdle()
		if b.reads == 0 {
			s.fail("the connection after the failures is not read")
		}
		s.give(b, t.frame(numbered(1)), io.EOF)
		s.expect("after the failures", append(want, numbered(1))...)
		s.finish()
		if s.bad != "" {
			return fmt.Sprintf("%s (%d failures)", s.bad, n)
		}
		return ""
	})
}

// huge: frames that are many times larger than the buffers.
func huge(t transport, deep bool) mc.Unit {
	sizes := around(200000, 1<<20, 1, 1)
	if deep {
		sizes = around(200000, 1<<22, 9, 1)
	}
	return serially("huge-"+t.name, 0, func() string {
		n := sizes[pick(len(sizes), "size")]
		c := newConn([]int{0, 1 << 16, 20000}[pick(3, "largest read")])
		s := start(t, 1, c)
		vs.GoH("consumer", s.consume)
		big := sized(n, 'x')
		var want []string
		if pick(2, "before") == 1 {
			s.give(c, t.frame(numbered(0)), nil)
			want = append(want, numbered(0))
		}
		want = append(want, big, numbered(1))
		switch pick(3, "end") {
		case 0:
			s.give(c, t.frame(big)+t.frame(numbered(1)), io.EOF)
		case 1:
			s.give(c, t.frame(big), nil)
			s.give(c, t.frame(numbered(1)), io.EOF)
		case 2:
			s.give(c, t.frame(big)+t.frame(numbered(1)), nil)
			s.expect("before the end", want...)
			s.give(c, "", io.EOF)
		}
		s.expect("at the end", want...)
		if l := drain(s.errs); len(l) > 0 {
			s.fail("errors reported: %v", l)
		}
		s.finish()
		if s.bad != "" {
			return fmt.Sprintf("%s (a message of %d bytes)", s.bad, n)
		}
		return ""
	})
}

// steady: many rounds of some messages and a tick.
func steady(t transport, deep bool) mc.Unit {
	rounds := around(1, 300, 1, 1)
	if deep {
		rounds = around(1, 5000, 1, 1)
	}
	return serially("steady-"+t.name, 5000, func() string {
		n, pick := amount(rounds, thousands(deep, 10001), "rounds")
		each := []int{1, 2, 7}[pick(3, "messages")]
		idle := []int{0, 1, 3}[pick(3, "idle ticks")]
		wait := []time.Duration{0, time.Minute}[pick(2, "wait")]
		d := &dest{}
		tick := make(chan time.Time)
		s, errs := syslog5424.NewSender(d, t.t, tick)
		var all []*sent
		bytes := 0
		bad := ""
		for k := 0; k < n && bad == ""; k++ {
			for i := 0; i < each; i++ {
				x := &sent{msg: len(all) % 100, idx: len(all)}
				all = append(all, x)
				x.err = s.Send(msgs[x.msg])
				x.done = true
				if x.err != nil && bad == "" {
					bad = "Send: " + x.err.Error()
				}
				bytes += len(t.frame(wires[x.msg]))
			}
			for i := 0; i <= idle; i++ {
				vs.SendTo(tick)(time.Time{})
				vs.WaitIdle()
			}
			got := 0
			for _, c := range d.conns {
				got += len(c.b)
			}
			if got != bytes && bad == "" {
				bad = fmt.Sprintf("%d bytes are written after the tick %d, wanted %d", got, k, bytes)
			}
			if wait > 0 {
				vs.Sleep(wait)
			}
		}
		s.End()
		for it := vs.Range(errs); it.Next(); {
			bad = fmt.Sprintf("an error is reported: %v", it.V)
		}
		if bad == "" {
			var b, w string
			for _, c := range d.conns {
				b += string(c.b)
			}
			for _, x := range all {
				w += t.frame(wires[x.msg])
			}
			if b != w {
				bad = "what is written is not what was sent"
			}
		}
		if bad != "" {
			return fmt.Sprintf("%s (%d rounds of %d messages)", bad, n, each)
		}
		return ""
	})
}

// troubles: many failures in a row, each of which is reported or finds the one before it unread.
func troubles(t transport, deep bool) mc.Unit {
	counts := around(30, 300, 1, 1)
	if deep {
		counts = around(30, 5000, 1, 1)
	}
	fails := []outcome{wConnect, wErr0, wErrHalf, wErrAll}
	return serially("troubles-"+t.name, 10000, func() string {
		n, choose := amount(counts, thousands(deep, 4097), "failures")
		f := fails[pick(len(fails), "failure")]
		every := []int{0, 1, 7}[choose(3, "errors read")]
		wait := []time.Duration{0, time.Minute}[choose(2, "wait")]
		d := &dest{down: f}
		tick := make(chan time.Time)
		s, errs := syslog5424.NewSender(d, t.t, tick)
		bad := ""
		from, left := 0, 0
		look := func(got []error) {
			if bad == "" {
				bad = subsequence(got, d.errs[from:])
			}
			from = len(d.errs)
		}
		for k := 0; k < n && bad == ""; k++ {
			if left == 0 || k%10 == 0 {
				if err := s.Send(msgs[k%100]); err != nil {
					bad = err.Error()
				}
				left++
			}
			vs.SendTo(tick)(time.Time{})
			vs.WaitIdle()
			if every > 0 && k%every == every-1 {
				look(drain(errs))
			}
			if wait > 0 {
				vs.Sleep(wait)
			}
		}
		d.down = wOK
		s.End()
		var got []error
		for it := vs.Range(errs); it.Next(); {
			got = append(got, it.V)
		}
		look(got)
		if bad != "" {
			return fmt.Sprintf("%s (%d failures %d)", bad, n, f)
		}
		return ""
	})
}
