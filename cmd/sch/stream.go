package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
)

// how a stream ends
const (
	eofApart = iota
	eofWith
	errApart
	errWith
	numEnds
)

// session is a run of a receiver with one connection.
type session struct {
	l      *rlistener
	c      *rconn
	events []*event
	bad    string
	r      *syslog5424.Receiver
	errs   <-chan error
	ended  bool
	closed bool // Receive reported the end
	got    []error
}

func (s *session) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

// consume receives until the end.
func (s *session) consume() {
	for {
		m, err, ok := s.r.Receive()
		if !ok {
			s.closed = true
			return
		}
		e := &event{m: m, err: err}
		if err == nil {
			e.was = m.String()
		}
		s.events = append(s.events, e)
	}
}

func start(t transport, queue int, script ...interface{}) *session {
	s := &session{l: newListener(script...)}
	s.r, s.errs = syslog5424.NewReceiver(s.l, queue, t.t)
	return s
}

// looks compares what was received with the frames that are complete in the first n bytes of the stream.
func looks(events []*event, frames []fr, n int, when string) string {
	k, pos := 0, 0
	for _, f := range frames {
		pos += len(f.wire)
		if pos > n || f.fatal {
			break
		}
		if k >= len(events) {
			return fmt.Sprintf("%s: frame %d (%q) is complete and was not received", when, k, clipped(f.wire))
		}
		e := events[k]
		switch {
		case f.bad && e.err == nil:
			return fmt.Sprintf("%s: the malformed frame %d (%q) was received as message %q", when, k, clipped(f.wire), clipped(e.was))
		case !f.bad && e.err != nil:
			return fmt.Sprintf("%s: frame %d (%q) was received as the error %v", when, k, clipped(f.wire), e.err)
		case !f.bad && e.was != f.payload:
			return fmt.Sprintf("%s: frame %d (%q) was received as %q", when, k, clipped(f.wire), clipped(e.was))
		}
		k++
	}
	return ""
}

func clipped(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s...(%d bytes)", s[:300], len(s))
	}
	return s
}

// whole counts the frames that are complete in the first n bytes.
func whole(frames []fr, n int) (k int) {
	pos := 0
	for _, f := range frames {
		pos += len(f.wire)
		if pos > n || f.fatal {
			return
		}
		k++
	}
	return
}

// feedOne runs a receiver over one stream: frames, then tail (the beginning of a frame), cut at the given offsets.
// tailBad: 0 the tail is an error at the end of the stream, 1 it is the message tailMsg, 2 it may be an error
type stream struct {
	t       transport
	frames  []fr
	tail    string // an incomplete frame
	tailMsg string // what it is at the end of the stream, "": an error
	cuts    []int
	end     int
	max     int // largest read
	queue   int
	failure error // of a read that fails
}

func (p *stream) run() *session {
	failure := p.failure
	if failure == nil {
		failure = errRead
	}
	s := start(p.t, p.queue, newConn(p.max))
	s.c = s.l.script[0].(*rconn)
	vs.GoH("consumer", s.consume)
	data := ""
	for _, f := range p.frames {
		data += f.wire
	}
	n := len(data)
	data += p.tail
	pos := 0
	send := func(to int, err error) {
		if s.bad != "" {
			return
		}
		vs.WaitIdle()
		if s.c.closed > 0 {
			return
		}
		vs.SendTo(s.c.ch)(chunk{[]byte(data[pos:to]), err})
		pos = to
		vs.WaitIdle()
		if msg := looks(s.events, p.frames, pos, "after a read"); msg != "" {
			s.fail("%s", msg)
		}
		if err == nil && s.c.closed == 0 {
			if k := whole(p.frames, pos); len(s.events) > k {
				e := s.events[k]
				s.fail("%q (%v) was received before its frame was complete", e.was, e.err)
			}
		}
	}
	for _, k := range p.cuts {
		if k > pos && k < len(data) {
			send(k, nil)
		}
	}
	switch p.end {
	case eofApart, errApart:
		if pos < len(data) {
			send(len(data), nil)
		}
		err := io.EOF
		if p.end == errApart {
			err = failure
		}
		send(len(data), err)
	case eofWith:
		send(len(data), io.EOF)
	case errWith:
		send(len(data), failure)
	}
	vs.WaitIdle()
	// what the end of the stream gives
	fatal := false
	want := 0
	for _, f := range p.frames {
		want++
		if f.fatal {
			fatal = true
			break
		}
	}
	eof := p.end == eofApart || p.end == eofWith
	switch {
	case s.bad != "":
	case fatal:
		if len(s.events) != want || s.events[want-1].err == nil {
			s.fail("%d messages and errors received, wanted %d, the last one an error", len(s.events), want)
		}
	case n == len(data):
		if len(s.events) != want {
			s.fail("%d messages and errors received, wanted %d", len(s.events), want)
		}
	case !eof:
		if len(s.events) > want+1 || len(s.events) == want+1 && s.events[want].err == nil {
			s.fail("the read failed in the middle of a frame, and %q was received", s.events[want].was)
		}
	default:
		if len(s.events) != want+1 {
			s.fail("%d messages and errors received, wanted %d: the stream ends with %q", len(s.events), want+1, clipped(p.tail))
		} else if e := s.events[want]; p.tailMsg == "" && e.err == nil {
			s.fail("the truncated frame %q was received as %q", clipped(p.tail), clipped(e.was))
		} else if p.tailMsg != "" && (e.err != nil || e.was != p.tailMsg) {
			s.fail("the last frame %q was received as %q, %v", clipped(p.tail), clipped(e.was), e.err)
		}
	}
	if s.bad == "" && s.c.closed != 1 {
		s.fail("the connection is closed %d times at the end of the stream", s.c.closed)
	}
	s.got = drain(s.errs)
	if s.bad == "" {
		// the header of a frame can end the connection before the read failure is met
		if eof && len(s.got) > 0 {
			s.fail("errors reported: %v", s.got)
		}
		if !eof && !fatal && (len(s.got) != 1 || s.got[0] != failure) {
			s.fail("the read failure is reported as %v", s.got)
		}
	}
	s.finish()
	return s
}

// finish ends the receiver and looks at all messages again.
func (s *session) finish() {
	s.r.End()
	s.ended = true
	vs.WaitIdle()
	if s.bad != "" {
		return
	}
	if !s.closed {
		s.fail("Receive does not report the end after End")
	}
	if s.c != nil && s.c.after > 0 {
		s.fail("%d reads after the end of the stream", s.c.after)
	}
	vs.Quietly(s.again)
}

func (s *session) again() {
	for i, e := range s.events {
		if e.err != nil {
			continue
		}
		if g := e.m.String(); g != e.was {
			s.fail("message %d was %q when it was received and is %q now", i, clipped(e.was), clipped(g))
		} else if g := fields(e.m); g != parsedAlone(e.was) {
			s.fail("message %d has the fields %q, parsed alone %q", i, clipped(g), clipped(parsedAlone(e.was)))
		}
	}
}

var serial = vs.Cfg{Preempt: 0, MaxFires: 20, MaxSteps: 200000}

// streams explores the streams that gen makes with its choices.
func streams(name string, gen func() *stream) mc.Unit {
	var p *stream
	var s *session
	return mc.Unit{Name: name, Run: func(c *mc.C) {
		c.Explore(mc.Sched{Cfg: serial, Body: func() {
			s = nil
			p = gen()
			s = p.run()
		}, Check: func(o *vs.Outcome) string {
			msg := settled(o)
			if msg == "" && s != nil {
				msg = s.bad
			}
			if msg != "" {
				return msg + "\n  " + p.String()
			}
			if c.WantSample() {
				c.Sample("%s", p)
			}
			return ""
		}})
	}}
}

func (p *stream) String() string {
	var l []string
	for _, f := range p.frames {
		l = append(l, fmt.Sprintf("%q", clipped(f.wire)))
	}
	return fmt.Sprintf("transport %s, frames %s, tail %q, cut at %v, end %s, largest read %d", p.t.name, strings.Join(l, " "), clipped(p.tail), p.cuts, []string{"EOF apart", "EOF with the last bytes", "error apart", "error with the last bytes"}[p.end], p.max)
}

func pick(n int, what string) int { return vs.Choose(nil, n, 0, what) }

func (p *stream) length() (n int) {
	for _, f := range p.frames {
		n += len(f.wire)
	}
	return n + len(p.tail)
}

// cut picks up to k cuts.
func (p *stream) cut(k int) {
	n := p.length()
	from := 0
	for i := 0; i < k; i++ {
		if n-from < 2 {
			return
		}
		o := pick(n-from, "cut") // 0: no more cut
		if o == 0 {
			return
		}
		from += o
		p.cuts = append(p.cuts, from)
	}
}

// every cuts before every byte.
func (p *stream) every(k int) {
	for i := k; i < p.length(); i += k {
		p.cuts = append(p.cuts, i)
	}
}

// payloads that fit in a transport
func payloads(t transport) []string {
	l := []string{
		"<13>1 - - - - - -",
		"<165>1 2003-10-11T22:14:15.003Z host app 12 ID47 - text",
		`<34>1 - h - - - [a b="c"]`,
		`<34>1 - h - - - [a@1 b="x\"y\\z\]"][c] t`,
		`<13>1 - - - - - - [x] "q" ] `,
		"<13>1 - - - - - - 17 <13>1 - - - - - -",
		"<0>1 - - - - - -  \xef\xbb\xbf\xc3\xa9\xff",
		`<191>1 1985-04-12T23:20:50.52+02:00 - - - - [timeQuality tzKnown="1" isSynced="0"] `,
	}
	if t.name != "lf" {
		l = append(l, "<13>1 - - - - - - a\nb\n")
	}
	if t.name != "nul" {
		l = append(l, "<13>1 - - - - - - a\x00b\x00")
	}
	return l
}

// sized makes a valid payload of n bytes (at least 21).
func sized(n int, c byte) string {
	p := "<13>1 - - - - - - "
	b := make([]byte, n)
	copy(b, p)
	for i := len(p); i < n; i++ {
		b[i] = c
	}
	b[n-1] = '.'
	return string(b)
}

// tailOf makes the beginning of the frame of m, of n bytes.
func (p *stream) setTail(m string, n int) {
	p.tail = p.t.frame(m)[:n]
	p.tailMsg = ""
	if p.t.name == "nul" {
		if _, _, err := syslog5424.Parse([]byte(p.tail), nil, true); err == nil {
			p.tailMsg = p.tail
		}
	}
}

var _ = time.Now

func init() {
	reg(&mc.Property{ID: "C07", Hang: 2 * time.Minute, Assume: []string{"parsing a message alone is right (C12)", "the controlled scheduler keeps the meaning of the Go operations it stands in for"},
		Bounds: func(deep bool) string {
			s := "three transports, 4 ways of ending the stream; sequences of 1 and 2 of 9 valid messages with every cut into 2 reads, selected ones with every cut into 3 reads, triples read byte by byte; every truncated last frame after every message; "
			if deep {
				s = "three transports, 4 ways of ending the stream; sequences of 1 to 3 of 9 valid messages with every cut into 2 reads, pairs with every cut into 3 reads, selected ones with every cut into 4; every truncated last frame after every message, with every cut; "
			}
			return s + "streams longer than the read buffer made of messages of each size from 21 to 2100 bytes, and of single messages around 64K, 128K and 192K, with 6 largest read sizes; up to 260 (thorough 5000) reads that give nothing, and pauses of up to 400 days, in and between the frames; 1025, 4097, 10001 and 65537 frames on a connection; single messages around the powers of 2 and 10 up to 1 MiB (thorough 4 MiB) among others; queues of 0, 1, 10 and 100 places; two transports of the user, with sequences of 1 and 2 messages, truncated frames and sizes"
		},
		Units: func(deep bool) (u []mc.Unit) {
			for _, t := range transports {
				t := t
				ms := payloads(t)
				for i := range ms {
					i := i
					u = append(u, streams(fmt.Sprintf("%s-pairs-%d", t.name, i), func() *stream {
						p := &stream{t: t, frames: []fr{good(t, ms[i])}, end: pick(numEnds, "end"), queue: 1}
						if k := pick(len(ms)+1, "second"); k > 0 {
							p.frames = append(p.frames, good(t, ms[k-1]))
						}
						cuts := 1
						if deep {
							cuts = 2
						}
						p.cut(cuts)
						return p
					}), streams(fmt.Sprintf("%s-tails-%d", t.name, i), func() *stream {
						p := &stream{t: t, end: pick(numEnds, "end")}
						if pick(2, "before") == 1 {
							p.frames = []fr{good(t, ms[(i+1)%len(ms)])}
						}
						p.setTail(ms[i], 1+pick(len(t.frame(ms[i]))-1, "tail"))
						if deep {
							p.cut(1)
						} else if pick(2, "byte by byte") == 1 {
							p.every(1)
						}
						return p
					}), streams(fmt.Sprintf("%s-bytes-%d", t.name, i), func() *stream {
						a, b := pick(len(ms), "second"), pick(len(ms), "third")
						p := &stream{t: t, frames: []fr{good(t, ms[i]), good(t, ms[a]), good(t, ms[b])}, end: pick(numEnds, "end"), queue: 1 + 2*pick(2, "queue")}
						switch pick(3, "reads") {
						case 0:
							p.every(1)
						case 1:
							p.max = 1
						case 2:
							p.every(7)
							p.max = 3
						}
						return p
					}))
					if deep {
						for k := range ms {
							k := k
							u = append(u, streams(fmt.Sprintf("%s-triples-%d-%d", t.name, i, k), func() *stream {
								p := &stream{t: t, frames: []fr{good(t, ms[i]), good(t, ms[k]), good(t, ms[pick(len(ms), "third")])}, end: pick(numEnds, "end")}
								p.cut(1)
								return p
							}))
						}
					}
				}
				for k := 0; k < 4; k++ {
					k := k
					u = append(u, streams(fmt.Sprintf("%s-cuts-%d", t.name, k), func() *stream {
						p := &stream{t: t, frames: []fr{good(t, ms[0]), good(t, ms[2])}, end: k}
						n := 2
						if deep {
							n = 3
						}
						p.cut(n)
						return p
					}))
				}
				for lo := 21; lo < 2101; lo += 260 {
					lo := lo
					u = append(u, streams(fmt.Sprintf("%s-sizes-%d", t.name, lo), func() *stream {
						n := lo + pick(260, "size")
						p := &stream{t: t, end: eofWith, max: []int{0, 65536, 1000, 4097, 61, 65000}[pick(6, "largest read")], queue: 64}
						total := 140000
						if p.max == 61 && n%16 != 0 && !deep {
							total = 1000
						}
						for i := 0; total > 0; i++ {
							p.frames = append(p.frames, good(t, sized(n, byte('a'+i%26))))
							total -= n
						}
						return p
					}))
				}
				for _, base := range []int{65536, 131072, 196608} {
					for half := 0; half < 4; half++ {
						base, half := base, half
						u = append(u, streams(fmt.Sprintf("%s-large-%d-%d", t.name, base, half), func() *stream {
							step := 9
							if deep {
								step = 1
							}
							n := base - 560 + half*280 + step*pick(280/step, "size")
							p := &stream{t: t, end: pick(2, "end"), max: []int{0, 65536, 10000}[pick(3, "largest read")], queue: 4}
							p.frames = []fr{good(t, sized(n, 'x')), good(t, ms[2]), good(t, sized(600, 'y')), good(t, ms[1])}
							if pick(2, "shift") == 1 {
								p.frames = append([]fr{good(t, ms[3])}, p.frames...)
							}
							return p
						}))
					}
				}
			}
			u = append(u, ownStreams()...)
			for _, t := range transports {
				u = append(u, patient(t, deep), huge(t, deep), torrent(t, deep))
			}
			return
		}})
}
