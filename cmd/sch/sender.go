package main

import (
	"errors"
	"fmt"
	"strings"
	"time"
	"unsafe"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
)

// sp describes a scenario of one sender.
type sp struct {
	tr      transport
	senders int
	msgs    int
	ticks   int  // ticks given by a goroutine of their own
	join    bool // End only after the senders and the ticks
	late    bool // one more Send while End runs or after it
	twoLate bool // in another goroutine
	chain   bool // each sender starts after the first message of the previous one
	connect bool // connecting can fail
	writes  []outcome
	reader  bool   // a goroutine reads the errors
	noEnd   bool   // no End: the destination gets healthy, and a tick writes everything
	hist    int    // the main goroutine makes that many operations, each of them one of send and tick
	burst   int    // messages sent at once before anything else
	slow    bool   // everything the destination does takes an hour, and an hour may pass between the operations
	via     string // the library dials a virtual socket of that network
	preempt int
	env     int
}

func (p sp) name() string {
	var s []string
	add := func(b bool, f string, a ...interface{}) {
		if b {
			s = append(s, fmt.Sprintf(f, a...))
		}
	}
	add(true, "%s", p.tr.name)
	add(p.via != "", "%s", p.via)
	add(p.senders > 0, "%dx%d", p.senders, p.msgs)
	add(p.burst > 0, "burst%d", p.burst)
	add(p.hist > 0, "history%d", p.hist)
	add(p.ticks > 0, "ticks%d", p.ticks)
	add(p.chain, "chain")
	add(p.join, "join")
	add(p.late, "late")
	add(p.twoLate, "late2")
	add(p.connect, "connect")
	add(len(p.writes) > 0 && len(p.writes) < 20, "writes%v", p.writes)
	add(len(p.writes) >= 20, "kinds")
	add(p.reader, "reader")
	add(p.noEnd, "noend")
	add(p.slow, "slow")
	add(p.preempt >= 0, "preempt%d", p.preempt)
	add(p.env > 0, "env%d", p.env)
	return strings.Join(s, "-")
}

type srun struct {
	d        *dest
	all      []*sent
	before   int      // sends that had returned when End was called
	wrote    int      // operations on the destination when End returned
	opsAtEnd int      // operations on the destination when the goroutine ended
	got      []error  // errors read from the channel
	order    [][2]int // sends of which the first returned before the second began
	ended    bool
	snap     string
	calm     bool // not closed: noEnd
}

func (p sp) body(r **srun) func() {
	return func() {
		q := &srun{d: &dest{failConnect: p.connect, allConnects: p.connect && len(p.writes) >= 20, writes: p.writes, slow: p.slow}}
		*r = q
		tick := make(chan time.Time)
		var c syslog5424.Connector = q.d
		if p.via != "" {
			c = q.d.over(p.via)
		}
		s, errs := syslog5424.NewSender(c, p.tr.t, tick)
		var sends []*sent
		slot := func(who, idx int) *sent {
			x := &sent{who: who, idx: idx, msg: len(q.all)}
			q.all = append(q.all, x)
			return x
		}
		do := func(x *sent) {
			x.err = s.Send(msgs[x.msg])
			x.done = true
		}
		joined := make(chan int, 16)
		goroutines := 0
		for i := 0; i < p.burst; i++ {
			do(slot(0, i))
		}
		var next, prev chan int
		for k := 0; k < p.senders; k++ {
			mine := make([]*sent, p.msgs)
			for i := range mine {
				mine[i] = slot(k+1, i)
			}
			sends = append(sends, mine...)
			if p.chain {
				prev, next = next, make(chan int, 1)
			}
			wait, signal := prev, next
			if p.join {
				goroutines++
			}
			vs.GoH("sender", func() {
				if wait != nil {
					vs.Recv(wait)
				}
				for i, x := range mine {
					do(x)
					if signal != nil && i == 0 {
						vs.SendTo(signal)(1)
					}
				}
				if p.join {
					vs.SendTo(joined)(1)
				}
			})
		}
		if p.chain {
			for k := 1; k < p.senders; k++ {
				q.order = append(q.order, [2]int{sends[(k-1)*p.msgs].msg, sends[k*p.msgs].msg})
			}
		}
		if p.ticks > 0 {
			if p.join {
				goroutines++
			}
			vs.GoH("ticker", func() {
				for i := 0; i < p.ticks; i++ {
					vs.SendTo(tick)(time.Time{})
				}
				if p.join {
					vs.SendTo(joined)(1)
				}
			})
		}
		over := make(chan int, 1)
		if p.reader {
			vs.GoH("reader", func() {
				for it := vs.Range(errs); it.Next(); {
					q.got = append(q.got, it.V)
				}
				vs.SendTo(over)(1)
			})
		}
		n, ops := 0, 2
		if p.slow {
			ops = 3
		}
		for i := 0; i < p.hist; i++ {
			switch vs.Choose(nil, ops, 0, "operation") {
			case 0:
				do(slot(0, 100+n))
				n++
			case 1:
				vs.SendTo(tick)(time.Time{})
			case 2:
				vs.Sleep(time.Hour)
			}
		}
		if p.join {
			for i := 0; i < goroutines; i++ {
				vs.Recv(joined)
			}
			q.before = len(q.all)
		}
		if p.noEnd {
			settle := func() {
				if p.slow {
					vs.Sleep(1000 * time.Hour)
				}
				vs.WaitIdle()
			}
			settle()
			q.d.healthy = true
			vs.SendTo(tick)(time.Time{})
			settle()
			q.d.look()
			_, q.snap = q.d.stream(p.tr, q.all, true)
			q.calm = true
			if !p.reader {
				q.got = drain(errs)
			}
			return
		}
		if p.burst+p.hist > 0 && !p.join {
			q.before = p.burst
		}
		var latest *sent
		if p.twoLate {
			latest = slot(90, 0)
			vs.GoH("late", func() { do(latest) })
		}
		s.End()
		q.ended = true
		vs.Point(unsafe.Pointer(q.d), "ended")
		q.wrote = q.d.look()
		if p.late {
			do(slot(91, 0))
		}
		if p.reader {
			vs.Recv(over)
		} else {
			for it := vs.Range(errs); it.Next(); {
				q.got = append(q.got, it.V)
			}
		}
	}
}

// drain takes what is in the channel without waiting.
func drain(errs <-chan error) (l []error) {
	for {
		c := vs.CaseRecv(errs)
		if vs.Select(true, c) < 0 || !c.Ok {
			return
		}
		l = append(l, c.V)
	}
}

// what a property looks at
const (
	jStream = 1 << iota
	jEnd
	jErrors
)

func (p sp) check(r **srun, what int) func(o *vs.Outcome) string {
	return func(o *vs.Outcome) string {
		q := *r
		q.opsAtEnd = q.d.look()
		if msg := p.judge(q, o, what); msg != "" {
			s := msg + "\n  destination:" + q.d.String()
			for _, x := range q.all {
				s += fmt.Sprintf("\n  send of message %d by %d: returned %v, %v", x.msg, x.who, x.done, x.err)
			}
			return s + fmt.Sprintf("\n  failures %v, errors received %v", q.d.errs, q.got)
		}
		return ""
	}
}

func (p sp) judge(q *srun, o *vs.Outcome, what int) string {
	may := []string{}
	if !p.join {
		may = append(may, "ticker")
	}
	if q.calm {
		may = append(may, "reader")
		for i := range o.Blocked {
			b := &o.Blocked[i]
			b.Lib = false // the sender is not ended
			may = append(may, b.Name)
		}
	}
	if msg := settled(o, may...); msg != "" {
		return msg
	}
	if what&jStream != 0 {
		if q.snap != "" {
			return "a tick on the healthy destination: " + q.snap
		}
		order, msg := q.d.stream(p.tr, q.all, true)
		if msg != "" {
			return msg
		}
		for _, c := range q.order {
			a, b := -1, -1
			for i, k := range order {
				if q.all[k].msg == c[0] {
					a = i
				}
				if q.all[k].msg == c[1] {
					b = i
				}
			}
			if b >= 0 && a > b {
				return fmt.Sprintf("message %d was accepted before message %d and is written after it", c[0], c[1])
			}
		}
		for i, x := range q.all {
			if i < q.before && x.err != nil {
				return fmt.Sprintf("Send of message %d, long before End, returned %v", x.msg, x.err)
			}
			if x.who == 91 && x.err == nil {
				return "Send after End returned nil"
			}
		}
	}
	if what&jEnd != 0 && !q.calm {
		if msg := q.d.closedOnce(); msg != "" {
			return msg
		}
		if q.wrote != q.opsAtEnd {
			return fmt.Sprintf("%d operations on the connections after End had returned", q.opsAtEnd-q.wrote)
		}
		// everything accepted before End is written
		if _, msg := q.d.stream(p.tr, q.all, true); msg != "" {
			return msg
		}
	}
	if what&jErrors != 0 {
		if msg := subsequence(q.got, q.d.errs); msg != "" {
			return msg
		}
	}
	return ""
}

// subsequence: got are failures in their order, and the first one is there.
func subsequence(got, errs []error) string {
	if len(errs) > 0 && (len(got) == 0 || !errors.Is(got[0], errs[0])) {
		return fmt.Sprintf("the first failure %v was not reported: errors received %v", errs[0], got)
	}
	i := 0
	for _, e := range got {
		for i < len(errs) && !errors.Is(e, errs[i]) {
			i++
		}
		if i == len(errs) {
			return fmt.Sprintf("errors received %v, failures %v", got, errs)
		}
		i++
	}
	return ""
}

func (p sp) unit(what int) mc.Unit {
	var r *srun
	cfg := vs.Cfg{Preempt: p.preempt, Env: p.env, MaxSteps: 20000}
	if p.slow {
		cfg.MaxFires, cfg.Lazy = 200, true
	}
	return unit(p.name(), cfg, p.body(&r), p.check(&r, what))
}

func units(what int, l []sp) (u []mc.Unit) {
	for _, p := range l {
		u = append(u, p.unit(what))
	}
	return
}

var trust = []string{"the controlled scheduler (vs/) and the source rewriting (instr/) keep the meaning of the Go operations they stand in for", "data races are found by the Go race detector in each explored schedule; two schedules with the same happens-before order are equivalent"}

// everything that can be wrong with a write
var allWrites = []outcome{wErr0, wErrHalf, wErrAlmost, wErrAll, wOpHalf, wOpReset, wNoBufs, wNoBufsHalf}

// every kind of error, after half of the bytes
func allKinds() (l []outcome) {
	for i := range kinds {
		l = append(l, wKind+outcome(i))
	}
	return
}

func senderBounds(what string) func(deep bool) string {
	return func(deep bool) string {
		s := "all interleavings of "
		if deep {
			s += "up to 4 senders of up to 3 messages, up to 3 ticks and End; preemption bound 2 to 4 for the largest scenarios (unbounded in the units without 'preempt' in their name)"
		} else {
			s += "up to 3 senders of up to 3 messages, up to 2 ticks and End; preemption bound 2 for the largest scenarios (unbounded in the units without 'preempt' in their name)"
		}
		return s + what + "; the same through the library's connectors for unix, unixgram and tcp sockets in a virtual network, with smaller bounds"
	}
}

func init() {
	reg(&mc.Property{ID: "C01", Assume: append([]string{"connections honour the io.Writer contract"}, trust...),
		Bounds: senderBounds("; bursts of 0 to 3100 messages and of 6 numbers up to 65537 (thorough 2^20+1); one message of each size around the powers of 2 and 10 up to 1 MiB, alone and among others; every history of up to 6 sends and ticks of two messages that are the same or differ in one of 18 ways; up to 300 (thorough 5000) rounds of 1 to 7 messages and ticks, and 10001 rounds of one; 2 to 130 (thorough 1030) goroutines that send while the destination is busy (two schedules each); three transports and two of the user"),
		Units: func(deep bool) []mc.Unit {
			var l []sp
			for i, t := range transports {
				l = append(l,
					sp{tr: t, senders: 1, msgs: 3, ticks: 2, preempt: -1},
					sp{tr: t, senders: 2, msgs: 1, ticks: 1, late: true, preempt: -1},
					sp{tr: t, senders: 2, msgs: 1, ticks: 1, late: true, twoLate: true, preempt: -1},
					sp{tr: t, hist: 6, join: true, twoLate: true, preempt: -1},
					sp{tr: t, senders: 3, msgs: 2, ticks: 2, preempt: 2},
					sp{tr: t, senders: 2, msgs: 2, ticks: 2, join: true, preempt: 3},
				)
				if i == 0 || deep {
					l = append(l,
						sp{tr: t, senders: 2, msgs: 2, ticks: 1, preempt: -1},
						sp{tr: t, senders: 2, msgs: 2, ticks: 2, join: true, preempt: -1},
						sp{tr: t, senders: 2, msgs: 2, ticks: 2, chain: true, preempt: -1},
						sp{tr: t, senders: 3, msgs: 1, ticks: 1, preempt: -1},
					)
				}
				for _, b := range []int{1, 2, 63, 64, 65, 99, 100, 101, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 3100} {
					if b < 1000 || i == 0 || deep {
						l = append(l, sp{tr: t, burst: b, ticks: 2, join: true, preempt: 0}, sp{tr: t, burst: b, preempt: 0})
					}
				}
				l = append(l, sp{tr: t, senders: 2, msgs: 1, ticks: 1, late: true, slow: true, preempt: 2},
					sp{tr: t, hist: 5, join: true, twoLate: true, slow: true, preempt: 1})
				l = append(l, sp{tr: t, burst: 101, senders: 1, msgs: 2, ticks: 2, preempt: 1}, sp{tr: t, burst: 1001, senders: 1, msgs: 2, ticks: 1, join: true, preempt: 0})
				if deep {
					l = append(l,
						sp{tr: t, senders: 3, msgs: 3, ticks: 3, preempt: 2},
						sp{tr: t, senders: 4, msgs: 2, ticks: 2, preempt: 2},
						sp{tr: t, senders: 3, msgs: 2, ticks: 2, join: true, preempt: 3},
						sp{tr: t, senders: 4, msgs: 1, ticks: 2, late: true, preempt: 3},
						sp{tr: t, hist: 9, join: true, twoLate: true, preempt: -1},
						sp{tr: t, senders: 2, msgs: 3, ticks: 2, chain: true, late: true, preempt: 4},
					)
					if i == 0 {
						l = append(l, sp{tr: t, senders: 3, msgs: 1, ticks: 2, preempt: -1}, sp{tr: t, senders: 2, msgs: 2, ticks: 2, preempt: -1}, sp{tr: t, senders: 2, msgs: 3, ticks: 1, preempt: -1})
					}
				}
			}
			for i, v := range []string{"unix", "unixgram", "tcp", "local"} {
				t := transports[i%3]
				l = append(l, sp{tr: t, via: v, senders: 2, msgs: 1, ticks: 1, late: true, preempt: 2},
					sp{tr: t, via: v, senders: 1, msgs: 3, ticks: 2, preempt: 2},
					sp{tr: t, via: v, hist: 6, join: true, preempt: 1},
					sp{tr: t, via: v, burst: 1001, ticks: 2, join: true, preempt: 0})
				if deep {
					l = append(l, sp{tr: t, via: v, senders: 2, msgs: 2, ticks: 1, late: true, preempt: 4}, sp{tr: t, via: v, senders: 3, msgs: 1, ticks: 2, preempt: 3}, sp{tr: t, via: v, hist: 9, join: true, twoLate: true, preempt: 2})
				}
			}
			for _, t := range ownTransports {
				l = append(l,
					sp{tr: t, senders: 2, msgs: 1, ticks: 1, late: true, preempt: -1},
					sp{tr: t, hist: 6, join: true, twoLate: true, preempt: -1},
					sp{tr: t, burst: 1001, ticks: 2, join: true, preempt: 0})
			}
			u := units(jStream, l)
			for _, t := range transports {
				u = append(append(append(u, large(t, false, largeSizes(deep))...), steady(t, deep), throng(t, deep, nil, false), flood(t, deep, nil, false)), alike(t, 6, nil, false)...)
			}
			return u
		}})
	reg(&mc.Property{ID: "C02", Assume: trust,
		Bounds: senderBounds("; up to 2 (thorough 3) failures of connects and writes; with and without a goroutine reading the errors; up to 130 (thorough 1030) failures in a row of each of 6 kinds while End waits; 2 to 130 (thorough 1030) goroutines that send while the destination is busy"),
		Units: func(deep bool) []mc.Unit {
			var l []sp
			for i, t := range transports {
				w := []outcome{wErr0, wErrHalf, wNoBufs}
				for _, rd := range []bool{false, true} {
					l = append(l,
						sp{tr: t, reader: rd, preempt: -1},
						sp{tr: t, reader: rd, connect: true, ticks: 2, env: 3, preempt: -1},
						sp{tr: t, reader: rd, connect: true, ticks: 2, env: 2, writes: w, burst: 1, preempt: -1},
						sp{tr: t, reader: rd, senders: 2, msgs: 1, connect: true, ticks: 1, env: 1, writes: w, preempt: 3},
						sp{tr: t, reader: rd, senders: 1, msgs: 2, connect: true, ticks: 1, env: 2, writes: w, preempt: 3},
						sp{tr: t, reader: rd, hist: 4, twoLate: true, connect: true, env: 2, writes: w, preempt: 1},
						sp{tr: t, reader: rd, hist: 6, connect: true, env: 1, writes: w, preempt: 1},
						sp{tr: t, reader: rd, hist: 4, twoLate: true, connect: true, env: 1, writes: w, slow: true, preempt: 1},
						sp{tr: t, reader: rd, senders: 1, msgs: 1, connect: true, ticks: 1, env: 2, writes: w, slow: true, preempt: 2},
					)
					if i == 0 || deep {
						l = append(l, sp{tr: t, reader: rd, hist: 4, twoLate: true, connect: true, env: 1, writes: w, preempt: 2},
							sp{tr: t, reader: rd, hist: 6, connect: true, env: 1, writes: w, preempt: 2},
							sp{tr: t, reader: rd, senders: 2, msgs: 1, ticks: 1, late: true, preempt: -1},
							sp{tr: t, reader: rd, senders: 2, msgs: 2, ticks: 1, preempt: -1})
					}
					if deep {
						l = append(l,
							sp{tr: t, reader: rd, senders: 3, msgs: 1, connect: true, ticks: 2, env: 2, writes: w, preempt: 2},
							sp{tr: t, reader: rd, senders: 2, msgs: 2, connect: true, ticks: 2, env: 2, writes: w, preempt: 2},
							sp{tr: t, reader: rd, hist: 6, twoLate: true, connect: true, env: 3, writes: w, preempt: 2},
							sp{tr: t, reader: rd, connect: true, ticks: 3, env: 4, writes: allWrites, burst: 3, preempt: 3},
						)
					}
				}
			}
			for i, v := range []string{"unix", "unixgram", "tcp", "local"} {
				t, w := transports[i%3], []outcome{wErr0, wOpReset, wNoBufs}
				for _, rd := range []bool{false, true} {
					l = append(l,
						sp{tr: t, via: v, reader: rd, preempt: 2},
						sp{tr: t, via: v, reader: rd, connect: true, ticks: 2, env: 2, writes: w, burst: 1, preempt: 2},
						sp{tr: t, via: v, reader: rd, senders: 1, msgs: 1, connect: true, ticks: 1, env: 1, writes: w, preempt: 2},
						sp{tr: t, via: v, reader: rd, hist: 4, connect: true, env: 1, writes: w, preempt: 1},
					)
					if deep {
						l = append(l, sp{tr: t, via: v, reader: rd, senders: 2, msgs: 1, connect: true, ticks: 2, env: 2, writes: w, preempt: 2}, sp{tr: t, via: v, reader: rd, hist: 6, connect: true, env: 2, writes: w, preempt: 1})
					}
				}
			}
			u := units(jEnd, l)
			for _, t := range transports {
				u = append(u, lastly(t, deep), throng(t, deep, []outcome{wOK, wConnect, wErrHalf}, false))
			}
			return u
		}})
	reg(&mc.Property{ID: "C03", Assume: append([]string{"a write that fails reports the number of bytes that were really written"}, trust...),
		Bounds: senderBounds("; every pattern of up to 2 (thorough 4) failures of connects and writes among: error after 0, half, all but one and all bytes, plain or as net.OpError, temporary out-of-buffer error after 0 and half; one failed connect or write of each of about 200 kinds (every errno, time-outs, wrapped errors); recovery through a tick or through End; bursts of up to 1100 messages, and of 10001 and 65537 with a failure in the middle; one message of each size around the powers of 2 and 10 up to 1 MiB with one failure of 5 kinds; every history of up to 5 sends and ticks of two messages that are the same or differ in one of 18 ways, with one failure of 6 kinds; destinations that fail for up to 33 operations; 2 to 130 (thorough 1030) goroutines that send while the destination is busy and may fail"),
		Units: func(deep bool) []mc.Unit {
			var l []sp
			for i, t := range transports {
				for _, ne := range []bool{false, true} {
					l = append(l,
						sp{tr: t, hist: 5, connect: true, writes: allWrites, env: 1, noEnd: ne, join: true, preempt: -1},
						sp{tr: t, hist: 5, connect: true, writes: allWrites, env: 2, noEnd: ne, join: true, preempt: 1},
						sp{tr: t, burst: 3, connect: true, writes: allWrites, env: 2, ticks: 2, noEnd: ne, join: true, preempt: 2},
						sp{tr: t, burst: 2, connect: true, writes: allWrites, env: 3, ticks: 2, noEnd: ne, join: true, preempt: 1},
						sp{tr: t, hist: 4, connect: true, writes: allWrites, env: 2, noEnd: ne, join: true, slow: true, preempt: 0},
						sp{tr: t, senders: 1, msgs: 2, connect: true, writes: allWrites, env: 2, ticks: 2, noEnd: ne, join: true, preempt: 2},
					)
					if i == 0 || deep {
						l = append(l,
							sp{tr: t, senders: 1, msgs: 2, connect: true, writes: allWrites, env: 1, ticks: 2, noEnd: ne, join: true, preempt: -1},
							sp{tr: t, senders: 2, msgs: 1, connect: true, writes: allWrites, env: 1, ticks: 2, noEnd: ne, join: true, preempt: 2},
						)
					}
					if deep {
						l = append(l,
							sp{tr: t, hist: 6, connect: true, writes: allWrites, env: 3, noEnd: ne, join: true, preempt: 1},
							sp{tr: t, burst: 4, connect: true, writes: allWrites, env: 4, ticks: 2, noEnd: ne, join: true, preempt: 0},
							sp{tr: t, senders: 2, msgs: 1, connect: true, writes: allWrites, env: 2, ticks: 2, noEnd: ne, join: true, preempt: 2},
							sp{tr: t, senders: 2, msgs: 2, connect: true, writes: []outcome{wErrHalf, wErrAll, wNoBufsHalf}, env: 2, ticks: 2, noEnd: ne, join: true, preempt: 2},
							sp{tr: t, senders: 3, msgs: 1, connect: true, writes: []outcome{wErrHalf, wErr0, wNoBufs}, env: 2, ticks: 2, noEnd: ne, join: true, preempt: 2},
						)
					}
				}
				l = append(l, sp{tr: t, senders: 1, msgs: 2, connect: true, writes: []outcome{wErr0, wErrHalf}, env: 2, ticks: 1, preempt: 2},
					sp{tr: t, burst: 2, connect: true, writes: allKinds(), env: 1, ticks: 2, join: true, preempt: 0},
					sp{tr: t, burst: 2, connect: true, writes: allKinds(), env: 1, ticks: 2, noEnd: true, join: true, preempt: 0})
				if i == 0 || deep {
					l = append(l, sp{tr: t, burst: 130, connect: true, writes: []outcome{wErrHalf, wNoBufs}, env: 1, ticks: 1, join: true, preempt: 0},
						sp{tr: t, burst: 1100, connect: true, writes: []outcome{wErrHalf}, env: 1, ticks: 1, join: true, preempt: 0})
				}
			}
			for i, v := range []string{"unix", "unixgram", "tcp", "local"} {
				t, w := transports[i%3], allWrites
				if v == "unixgram" { // a datagram is written or not
					w = []outcome{wErr0, wOpReset, wNoBufs}
				}
				for _, ne := range []bool{false, true} {
					l = append(l,
						sp{tr: t, via: v, hist: 4, connect: true, writes: w, env: 2, noEnd: ne, join: true, preempt: 0},
						sp{tr: t, via: v, burst: 3, connect: true, writes: w, env: 2, ticks: 2, noEnd: ne, join: true, preempt: 1},
						sp{tr: t, via: v, senders: 1, msgs: 2, connect: true, writes: w, env: 1, ticks: 2, noEnd: ne, join: true, preempt: 2},
					)
					if deep {
						l = append(l, sp{tr: t, via: v, hist: 6, connect: true, writes: w, env: 3, noEnd: ne, join: true, preempt: 0}, sp{tr: t, via: v, senders: 2, msgs: 1, connect: true, writes: w, env: 2, ticks: 2, noEnd: ne, join: true, preempt: 2})
					}
				}
			}
			for _, t := range ownTransports {
				l = append(l,
					sp{tr: t, hist: 5, connect: true, writes: allWrites, env: 1, join: true, preempt: -1},
					sp{tr: t, burst: 3, connect: true, writes: allWrites, env: 2, ticks: 2, join: true, preempt: 1})
			}
			u := append(outages(jStream, deep), units(jStream, l)...)
			for i, t := range transports {
				u = append(u, large(t, true, largeSizes(deep))...)
				u = append(u, throng(t, deep, []outcome{wConnect, wErr0, wErrHalf, wErrAll, wNoBufs, wNoBufsHalf}, false), flood(t, deep, []outcome{wConnect, wErrHalf, wErrAll, wNoBufsHalf}, false))
				if i == 0 || deep {
					u = append(u, alike(t, 5, []outcome{wConnect, wErr0, wErrHalf, wErrAll, wNoBufs, wNoBufsHalf}, false)...)
				}
			}
			return u
		}})
	reg(&mc.Property{ID: "C04", Assume: trust,
		Bounds: senderBounds("; every pattern of up to 3 (thorough 4) failures of connects and writes; errors read never, always, or at every subset of the points between the operations; 30 to 300 (thorough 5000) failures in a row, and 4097, errors read after each, after every seventh or at the end (two schedules each)"),
		Units: func(deep bool) []mc.Unit {
			var l []sp
			t := transports[0]
			for _, rd := range []bool{false, true} {
				l = append(l,
					sp{tr: t, reader: rd, hist: 4, connect: true, writes: allWrites, env: 2, join: true, preempt: 1},
					sp{tr: t, reader: rd, hist: 4, connect: true, writes: allWrites, env: 1, join: true, preempt: -1},
					sp{tr: t, reader: rd, burst: 2, connect: true, writes: allWrites, env: 3, ticks: 2, preempt: 1},
					sp{tr: t, reader: rd, hist: 4, connect: true, writes: allWrites, env: 2, join: true, slow: true, preempt: 0},
					sp{tr: t, reader: rd, burst: 1, connect: true, writes: []outcome{wErr0, wNoBufs}, env: 2, ticks: 3, noEnd: true, preempt: 2},
					sp{tr: t, reader: rd, senders: 2, msgs: 1, connect: true, writes: []outcome{wErr0, wNoBufs}, env: 2, ticks: 2, preempt: 2},
				)
				if deep {
					l = append(l,
						sp{tr: t, reader: rd, hist: 6, connect: true, writes: allWrites, env: 3, join: true, preempt: 1},
						sp{tr: t, reader: rd, burst: 3, connect: true, writes: allWrites, env: 4, ticks: 2, preempt: 1},
						sp{tr: t, reader: rd, senders: 2, msgs: 2, connect: true, writes: []outcome{wErr0, wErrHalf, wNoBufs}, env: 3, ticks: 2, preempt: 2},
					)
				}
			}
			l = append(l, sp{tr: t, burst: 2, connect: true, writes: allKinds(), env: 1, ticks: 2, join: true, preempt: 0}, sp{tr: t, burst: 2, connect: true, writes: allKinds(), env: 1, ticks: 2, reader: true, join: true, preempt: 0})
			for _, v := range []string{"unix", "unixgram", "tcp"} {
				w := allWrites
				if v == "unixgram" {
					w = []outcome{wErr0, wOpReset, wNoBufs}
				}
				for _, rd := range []bool{false, true} {
					l = append(l, sp{tr: t, via: v, reader: rd, hist: 4, connect: true, writes: w, env: 2, join: true, preempt: 0},
						sp{tr: t, via: v, reader: rd, burst: 2, connect: true, writes: w, env: 2, ticks: 2, preempt: 1})
				}
			}
			u := append(outages(jErrors, deep), units(jErrors, l)...)
			for _, t := range transports {
				u = append(u, troubles(t, deep))
			}
			for k := 1; k <= 3; k++ {
				n := 2
				if deep {
					n = 3
				}
				u = append(u, precise(k, n+1, 1), precise(k, n, 2))
			}
			return u
		}})
}

// outages: the destination fails for some ticks in a row, twice. The first tick after that writes everything, whatever
// time passed, and every failure that finds the channel empty is reported.
func outages(what int, deep bool) (u []mc.Unit) {
	for _, t := range transports {
		u = append(u, outagesOf(t, what, deep))
	}
	return
}

func outagesOf(t transport, what int, deep bool) mc.Unit {
	type run struct {
		d   *dest
		all []*sent
		bad string
	}
	var r *run
	lengths := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 20, 33}
	if deep {
		lengths = append(lengths, 64, 65, 100, 101, 128, 257)
	}
	fails := []outcome{wConnect, wErr0, wErrHalf, wErrAll, wNoBufs, wNoBufsHalf}
	waits := []time.Duration{0, time.Millisecond, time.Second, time.Hour}
	return unit("outages-"+t.name, vs.Cfg{Preempt: 0, MaxFires: 5000, Lazy: true, MaxSteps: 200000}, func() {
		q := &run{d: &dest{}}
		r = q
		tick := make(chan time.Time)
		n := lengths[vs.Choose(nil, len(lengths), 0, "length")]
		first, second := fails[vs.Choose(nil, len(fails), 0, "failure")], fails[vs.Choose(nil, len(fails), 0, "failure")]
		wait := waits[vs.Choose(nil, len(waits), 0, "wait")]
		every := 1 + 2*vs.Choose(nil, 2, 0, "messages")
		read := vs.Choose(nil, 2, 0, "read the errors") == 1
		s, errs := syslog5424.NewSender(q.d, t.t, tick)
		from := 0
		look := func(got []error) {
			if q.bad == "" && what&jErrors != 0 {
				q.bad = subsequence(got, q.d.errs[from:])
			}
			from = len(q.d.errs)
		}
		send := func() {
			x := &sent{msg: len(q.all), idx: len(q.all)}
			q.all = append(q.all, x)
			x.err = s.Send(msgs[x.msg])
			x.done = true
		}
		for _, f := range []outcome{first, second} {
			q.d.down = f
			for i := 0; i < n; i++ {
				if i%every == 0 {
					send()
				}
				vs.SendTo(tick)(time.Time{})
				vs.WaitIdle()
				if read {
					look(drain(errs))
				}
				if wait > 0 {
					vs.Sleep(wait)
				}
			}
			q.d.down = wOK
			send()
			vs.SendTo(tick)(time.Time{})
			vs.WaitIdle()
			if read {
				look(drain(errs))
			}
			if _, msg := q.d.stream(t, q.all, true); msg != "" && q.bad == "" && what&jStream != 0 {
				q.bad = fmt.Sprintf("after %d failing ticks (%d): %s", n, f, msg)
			}
		}
		s.End()
		var got []error
		for it := vs.Range(errs); it.Next(); {
			got = append(got, it.V)
		}
		look(got)
	}, func(o *vs.Outcome) string {
		if msg := settled(o); msg != "" {
			return msg
		}
		for _, x := range r.all {
			if x.err != nil {
				return "Send: " + x.err.Error()
			}
		}
		return r.bad
	})
}

// precise: ticks one by one, with the errors read or not after each of them; every failure that finds the channel
// empty must be in it.
func precise(burst, env, rounds int) mc.Unit {
	type run struct {
		d   *dest
		bad string
	}
	var r *run
	return unit(fmt.Sprintf("stepwise-burst%d-env%d-rounds%d", burst, env, rounds), vs.Cfg{Preempt: 0, Env: env, MaxSteps: 20000}, func() {
		q := &run{d: &dest{failConnect: true, writes: allWrites}}
		r = q
		tick := make(chan time.Time)
		s, errs := syslog5424.NewSender(q.d, syslog5424.TransportLFEnded, tick)
		n, from := 0, 0
		look := func(got []error) {
			if q.bad == "" {
				q.bad = subsequence(got, q.d.errs[from:])
			}
			from = len(q.d.errs)
		}
		for k := 0; k < rounds; k++ {
			for i := 0; i < burst; i++ {
				if err := s.Send(msgs[n]); err != nil && q.bad == "" {
					q.bad = "Send: " + err.Error()
				}
				n++
			}
			for i := 0; i < 2; i++ {
				vs.SendTo(tick)(time.Time{})
				vs.WaitIdle()
				if vs.Choose(nil, 2, 0, "read the errors") == 1 {
					look(drain(errs))
				}
			}
		}
		s.End()
		var got []error
		for it := vs.Range(errs); it.Next(); {
			got = append(got, it.V)
		}
		look(got)
	}, func(o *vs.Outcome) string {
		if msg := settled(o); msg != "" {
			return msg
		}
		return r.bad
	})
}
