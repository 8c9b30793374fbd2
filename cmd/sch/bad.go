package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc"
	"verif/vs"
)

// broken are payloads that are no message whatever follows them.
func broken(t transport) []string {
	l := []string{
		"",
		" ",
		"x",
		"garbage",
		"<13>1 - - - -",
		"<13>1 - - - - -",
		"<13>1 - - - - - ",
		"<13>1 -  - - - -",
		"<13>1 - h a p m x text",
		"<13>1 - h a p m -x",
		"<13>1 - h a p m [",
		"<13>1 - h a p m [id",
		`<13>1 - h a p m [id a="b"`,
		`<13>1 - h a p m [id a="b]`,
		`<13>1 - h a p m [id a="b\"] text`,
		`<13>1 - h a p m [x][y a="`,
		"<13>1 - h a p m <13>1 - h a p m -",
	}
	switch t.name {
	case "lf":
		l = append(l, "\x00", "<13>1 - - -\x00 - -")
	case "nul":
		l = append(l, "\n", "<13>1 - - -\n - -")
	default:
		l = append(l, "\n", "\x00", "21 <13>1", "<13>1 - - - - - \n\x00")
	}
	return l
}

// headers are octet counts that are none; nothing of what follows can be a frame.
var headers = []string{" ", "x ", "12x ", "1-2 ", "- ", "-1 ", "<13>1 ", "4294967296 ", "2147483648 ", "99999999999999999999 ", "999999999999999999999", "9999999999999999999 ", "18446744073709551613 ", "18446744073709551629 ", "9223372036854775807 ", "9223372036854775808 ", "\n12 ", "0x10 ", "1e2 ", "1_0 ", "1.0 ", "\x00 ", "xxxxxxxxxxxxxxxxxxxx", "17<13>1 ", strings.Repeat("9", 40) + " "}

// frames8 are the frames C08 mixes.
func frames8(t transport) (l []fr) {
	for _, m := range payloads(t)[:4] {
		l = append(l, good(t, m))
	}
	for _, m := range broken(t) {
		l = append(l, malformed(t, m))
	}
	if t.name == "rfc5425" {
		for _, h := range headers {
			l = append(l, fr{wire: h, bad: true, fatal: true})
		}
	}
	return
}

// neighbours runs the stream on one connection while another one carries messages before, between and after.
func neighbours(name string, gen func() *stream) mc.Unit {
	var p *stream
	var bad string
	return mc.Unit{Name: name, Run: func(c *mc.C) {
		c.Explore(mc.Sched{Cfg: serial, Body: func() {
			p, bad = gen(), ""
			bad = p.beside()
		}, Check: func(o *vs.Outcome) string {
			msg := settled(o)
			if msg == "" {
				msg = bad
			}
			if msg != "" {
				return msg + "\n  " + p.String()
			}
			if c.WantSample() {
				c.Sample("%s, beside another connection", p)
			}
			return ""
		}})
	}}
}

// beside runs the stream on one connection and messages on another one.
func (p *stream) beside() string {
	a, b := newConn(p.max), newConn(0)
	s := start(p.t, p.queue, a, b)
	vs.GoH("consumer", s.consume)
	vs.WaitIdle()
	sent := 0
	other := func() {
		m := fmt.Sprintf("<13>1 - - - - - - other %d", sent)
		sent++
		vs.SendTo(b.ch)(chunk{[]byte(p.t.frame(m)), nil})
		vs.WaitIdle()
		if k := len(s.events); k == 0 || s.events[k-1].err != nil || s.events[k-1].was != m {
			s.fail("%q, sent whole on another connection, is not received", m)
		}
	}
	other()
	data := ""
	for _, f := range p.frames {
		data += f.wire
	}
	data += p.tail
	pos := 0
	for _, k := range append(append([]int{}, p.cuts...), len(data)) {
		if k > pos && a.closed == 0 {
			vs.SendTo(a.ch)(chunk{[]byte(data[pos:k]), nil})
			vs.WaitIdle()
			pos = k
			other()
		}
	}
	if a.closed == 0 {
		vs.Close(a.ch)
		vs.WaitIdle()
	}
	if a.closed != 1 {
		s.fail("the connection is closed %d times", a.closed)
	}
	other()
	if b.closed != 0 {
		s.fail("the other connection was closed")
	}
	vs.Close(b.ch)
	vs.WaitIdle()
	var mine []*event
	for _, e := range s.events {
		if e.err != nil || !strings.Contains(e.was, "other ") {
			mine = append(mine, e)
		}
	}
	if msg := looks(mine, p.frames, len(data), "at the end"); msg != "" {
		s.fail("%s", msg)
	}
	want := 0
	for _, f := range p.frames {
		want++
		if f.fatal {
			break
		}
	}
	if len(mine) != want {
		s.fail("%d messages and errors received, wanted %d", len(mine), want)
	}
	if errs := drain(s.errs); len(errs) > 0 {
		s.fail("errors reported: %v", errs)
	}
	s.finish()
	return s.bad
}

func init() {
	reg(&mc.Property{ID: "C08", Hang: 2 * time.Minute, Assume: []string{"the listed payloads are no messages under RFC 5424 (C12)", "the controlled scheduler keeps the meaning of the Go operations it stands in for"},
		Bounds: func(deep bool) string {
			s := "three transports, 4 valid messages, 19 to 21 malformed ones and 20 malformed octet counts: all sequences of 2 frames with every cut into 2 reads and 2 ends of stream, all sequences of 3 frames whole and byte by byte, each pair beside another connection; up to 300 malformed frames on a connection, and 1025, 4097, 10001 and 65537,, queues of up to 100 places (two schedules)"
			if deep {
				s = "three transports, 4 valid messages, 19 to 21 malformed ones and 20 malformed octet counts: all sequences of 3 frames with every cut into 2 reads, of 2 frames with every cut into 3, with 4 ends of stream, all sequences of 4 frames whole, each triple beside another connection; up to 5000 malformed frames on a connection, queues of up to 100 places (two schedules)"
			}
			return s
		},
		Units: func(deep bool) (u []mc.Unit) {
			for _, t := range transports {
				t := t
				fs := frames8(t)
				seq := func(i, n int) (l []fr) {
					l = append(l, fs[i])
					for len(l) < n {
						if l[len(l)-1].fatal {
							l = append(l, fs[pick(4, "ignored frame")])
							break
						}
						l = append(l, fs[pick(len(fs), "frame")])
					}
					return
				}
				for i := range fs {
					i := i
					u = append(u, streams(fmt.Sprintf("%s-pairs-%d", t.name, i), func() *stream {
						p := &stream{t: t, frames: seq(i, 2), end: pick(2, "end"), queue: 1}
						if deep {
							p.end = pick(numEnds, "end")
							p.cut(2)
						} else {
							p.cut(1)
						}
						return p
					}), streams(fmt.Sprintf("%s-triples-%d", t.name, i), func() *stream {
						p := &stream{t: t, frames: seq(i, 3), end: pick(2, "end")}
						if deep {
							p.cut(1)
							return p
						}
						switch pick(3, "reads") {
						case 1:
							p.every(1)
						case 2:
							p.max = 1
						}
						return p
					}), neighbours(fmt.Sprintf("%s-beside-%d", t.name, i), func() *stream {
						n := 2
						if deep {
							n = 3
						}
						p := &stream{t: t, frames: seq(i, n), queue: pick(2, "queue")}
						p.cut(1)
						return p
					}))
					if deep {
						u = append(u, streams(fmt.Sprintf("%s-fours-%d", t.name, i), func() *stream {
							return &stream{t: t, frames: seq(i, 4), end: pick(numEnds, "end")}
						}))
					}
				}
				// malformed last frames without their terminator
				if t.name == "nul" {
					for i, m := range broken(t) {
						i, m := i, m
						if m == "" {
							continue
						}
						u = append(u, streams(fmt.Sprintf("nul-last-%d", i), func() *stream {
							p := &stream{t: t, end: pick(2, "end"), frames: seq(pick(len(fs), "before"), 1)}
							p.setTail(m, len(m))
							p.cut(1)
							return p
						}))
					}
				}
			}
			for _, t := range transports {
				u = append(u, garbage(t, deep))
			}
			return
		}})
}
