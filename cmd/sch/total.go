package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/mc"
	"verif/vs"
)

// chooser makes a choice below n.
type chooser func(n int) int

// str makes a string of up to max tokens.
func (ch chooser) str(alphabet []string, max int) string {
	s := ""
	for i := 0; i < max; i++ {
		n := ch(len(alphabet) + 1)
		if n == 0 {
			break
		}
		s += alphabet[n-1]
	}
	return s
}

// edit makes one change of m.
func (ch chooser) edit(m string, alphabet []string) string {
	if m == "" {
		return alphabet[ch(len(alphabet))]
	}
	switch ch(5) {
	case 0: // removed bytes
		i := ch(len(m))
		n := 1 + ch(3)
		if i+n > len(m) {
			n = len(m) - i
		}
		return m[:i] + m[i+n:]
	case 1: // inserted
		i := ch(len(m) + 1)
		return m[:i] + alphabet[ch(len(alphabet))] + m[i:]
	case 2: // replaced
		i := ch(len(m))
		return m[:i] + alphabet[ch(len(alphabet))] + m[i+1:]
	case 3: // prefixes
		return m[:ch(len(m)+1)]
	default: // a part is doubled
		i := ch(len(m))
		n := []int{1, 4, 20}[ch(3)]
		if i+n > len(m) {
			n = len(m) - i
		}
		return m[:i+n] + m[i:]
	}
}

var (
	anyTokens  = []string{"<", ">1", "1", "9", " ", "-", "[", "]", `"`, `\`, "=", "a", "\n", "\x00", "\xff", "\xef\xbb\xbf"}
	sdTokens   = []string{"[", "]", `"`, `\`, "=", " ", "a", "-", "timeQuality"}
	headTokens = []string{"0", "1", "2", "9", " ", "<", "x", "-"}
	tqTokens   = []string{"[timeQuality", "tzKnown", "isSynced", "syncAccuracy", `"1"`, `"`, "=", " ", "]", "9999999999", "-"}
	seeds      = []string{
		"<165>1 2003-10-11T22:14:15.003Z host app 12 ID47 - text",
		`<34>1 - h - - - [a@1 b="x\"y\\z\]"][c] t`,
		`<191>1 1985-04-12T23:20:50.52+02:00 - - - - [timeQuality tzKnown="1" isSynced="1" syncAccuracy="60"] `,
	}
)

// genBytes are the families of byte strings of C09.
func genBytes(deep bool) (l []struct {
	name string
	gen  func(ch chooser) string
}) {
	add := func(name string, gen func(ch chooser) string) {
		l = append(l, struct {
			name string
			gen  func(ch chooser) string
		}{name, gen})
	}
	more := 0
	if deep {
		more = 1
	}
	add("any", func(ch chooser) string { return ch.str(anyTokens, 3+more) })
	add("sd", func(ch chooser) string { return "<13>1 - - - - - " + ch.str(sdTokens, 4+more) })
	add("timequality", func(ch chooser) string { return "<13>1 - - - - - [timeQuality" + ch.str(tqTokens[1:], 3+more) + "]" })
	add("header", func(ch chooser) string { return ch.str(headTokens, 4+more) + "<13>1 - - - - - -" })
	add("counts", func(ch chooser) string { // octet counts of every size
		s := ""
		switch ch(2) {
		case 0:
			s = strings.Repeat(string([]byte{byte('1' + ch(9))}), 1+ch(42))
		default:
			s = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(7+ch(60))), big.NewInt(int64(ch(7)-4))).String()
		}
		return s + []string{" ", "", " x", " <13>1 - - - - - -"}[ch(4)]
	})
	add("fields", func(ch chooser) string {
		s := ""
		for i := 0; i < 7; i++ {
			s += []string{" ", "-", "<1>1 "}[ch(3)]
		}
		return s
	})
	for i, m := range seeds {
		m := m
		add(fmt.Sprintf("edits-%d", i), func(ch chooser) string { return ch.edit(m, anyTokens) })
	}
	add("priorities", func(ch chooser) string {
		return "<" + ch.str([]string{"0", "1", "9", "-", "a", ">"}, 4+more) + ">1 - - - - - -"
	})
	add("times", func(ch chooser) string {
		return "<13>1 " + ch.edit("2003-10-11T22:14:15.003Z", []string{"", "0", "9", ":", "-", "Z", "T", "+", "."}) + " - - - - - x"
	})
	return
}

// rawStream runs a receiver on arbitrary bytes.
func rawStream(t transport, data string, cuts []int, end int, queue int) (bad string) {
	a, b := newConn(0), newConn(0)
	s := start(t, queue, a, b)
	vs.GoH("consumer", s.consume)
	other := func(i string) {
		m := "<13>1 - - - - - - other" + i
		vs.WaitIdle()
		vs.SendTo(b.ch)(chunk{[]byte(t.frame(m)), nil})
		vs.WaitIdle()
		if k := len(s.events); k == 0 || s.events[k-1].err != nil || s.events[k-1].was != m {
			s.fail("%q, sent whole on another connection, is not received", m)
		}
	}
	pos := 0
	gave := false
	for _, k := range append(append([]int{}, cuts...), len(data)) {
		if k < pos || k > len(data) {
			continue
		}
		vs.WaitIdle()
		if a.closed > 0 {
			break
		}
		c := chunk{[]byte(data[pos:k]), nil}
		if k == len(data) {
			switch end {
			case eofWith:
				c.err = io.EOF
			case errWith:
				c.err = errRead
				gave = true
			}
		}
		vs.SendTo(a.ch)(c)
		pos = k
	}
	vs.WaitIdle()
	if a.closed == 0 && !a.over {
		c := chunk{nil, io.EOF}
		if end == errApart {
			c.err = errRead
			gave = true
		}
		vs.SendTo(a.ch)(c)
	}
	other("1")
	if a.closed != 1 {
		s.fail("the connection is closed %d times after its end", a.closed)
	}
	if a.after > 0 {
		s.fail("%d reads after the end", a.after)
	}
	if b.closed > 0 {
		s.fail("the other connection is closed")
	}
	errs := drain(s.errs)
	if gave && (len(errs) != 1 || errs[0] != errRead) {
		s.fail("the read error is reported as %v", errs)
	}
	if !gave && len(errs) > 0 {
		s.fail("errors reported without any read error: %v", errs)
	}
	vs.Close(b.ch)
	vs.WaitIdle()
	s.r.End()
	vs.WaitIdle()
	if s.bad == "" && !s.closed {
		s.fail("Receive does not report the end")
	}
	if s.bad == "" && b.closed != 1 {
		s.fail("the other connection is closed %d times", b.closed)
	}
	for _, e := range s.events {
		if e.err == nil {
			f := fields(e.m)
			e.m.Writable()
			if g := e.m.String(); g != e.was || fields(e.m) != f {
				s.fail("message %q changed to %q", clipped(e.was), clipped(g))
			}
		} else if e.err.Error() == "" {
			s.fail("empty error")
		}
	}
	return s.bad
}

func raw(name string, t transport, gen func(ch chooser) (data string, cuts []int, end int, queue int)) mc.Unit {
	var bad, desc string
	var data string
	var cuts []int
	var end, queue int
	return mc.Unit{Name: name, Run: func(c *mc.C) {
		c.Explore(mc.Sched{Cfg: serial, Body: func() {
			bad = ""
			data, cuts, end, queue = gen(func(n int) int {
				if n <= 1 {
					return 0
				}
				return vs.Choose(nil, n, 0, "byte")
			})
			bad = rawStream(t, data, cuts, end, queue)
		}, Check: func(o *vs.Outcome) string {
			msg := settled(o)
			if msg == "" {
				msg = bad
			}
			if msg != "" || c.WantSample() {
				desc = fmt.Sprintf("transport %s, bytes %q, cut at %v, end %d, queue %d", t.name, clipped(data), cuts, end, queue)
			}
			if msg != "" {
				return msg + "\n  " + desc
			}
			c.Sample("%s", desc)
			return ""
		}})
	}}
}

// parseAll gives the bytes to the parser and reads everything of the result.
func parseAll(x *mc.X, s string) {
	for _, t := range append([]transport{{}}, transports...) {
		for _, eof := range []bool{false, true} {
			b := []byte(s)
			m, rest, err := syslog5424.Parse(b, t.t, eof)
			if string(b) != s {
				x.Fail("Parse changed its input %q to %q", s, b)
			}
			if len(rest) > len(b) {
				x.Fail("Parse(%q) has the rest %q", s, rest)
			}
			if err != nil {
				_ = err.Error()
				continue
			}
			if m.String() == "" { // nothing yet
				continue
			}
			fields(m)
			w := m.Writable()
			w.Marshal5424()
			_ = w.String()
		}
	}
}

var (
	longAfter  = strings.Repeat("x", 300)
	longBefore = "<13>1 - - - - - [x a=\"" + longAfter + "\"]"
)

// parseLong gives the bytes to the parser as the beginning and the end of a long message.
func parseLong(s string) {
	for _, l := range []string{s + longAfter, longBefore + s} {
		if m, _, err := syslog5424.Parse([]byte(l), nil, true); err != nil {
			_ = err.Error()
		} else {
			fields(m)
		}
	}
}

// functions gives the bytes to every parsing function.
func functions(x *mc.X, s string) {
	b := []byte(s)
	if sd, ok := sdata.Parse(b); ok {
		if sd == nil {
			x.Fail("sdata.Parse(%q) gives nil", s)
		}
		sd.Marshal5424()
		sd.SDID()
	}
	if sd, ok := timequality.TQ.Found(b); ok {
		sd.Marshal5424()
	}
	sdata.NextHeader(b)
	sdata.NextNonSpace(b)
	sdata.NextSDName(b)
	sdata.NextSDValue(b)
	var p syslog5424.Priority
	p.Set(s)
	p.Unmarshal5424(b)
	for _, t := range transports {
		t.t.PrefixStrip(b, false)
		t.t.PrefixStrip(b, true)
		t.t.SuffixStrip(b, false)
		t.t.SuffixStrip(b, true)
	}
	if string(b) != s {
		x.Fail("parsing changed the input %q to %q", s, b)
	}
}

// failures: several connections fail and nobody reads the error channel.
func failures(n, queue int, t transport) (bad string) {
	var script []interface{}
	var conns []*rconn
	var gates []*gate
	for i := 0; i < n; i++ {
		c := newConn(0)
		conns = append(conns, c)
		if n > 3 { // one at a time
			gates = append(gates, &gate{make(chan int)})
			script = append(script, gates[i])
		}
		script = append(script, c)
	}
	b := newConn(0)
	s := start(t, queue, append(script, b)...)
	vs.GoH("consumer", s.consume)
	errs := make([]error, n)
	total := 0
	read := pick(2, "errors are read") == 1
	var first error
	same := -1
	if n > 3 {
		same = pick(4, "how the connections fail")
	}
	for i, c := range conns {
		errs[i] = errors.New(fmt.Sprint("failure ", i))
		if n > 3 {
			vs.Close(gates[i].ch)
		}
		vs.WaitIdle()
		m := fmt.Sprintf("<13>1 - - - - - - m%d", i)
		k := chunk{[]byte(t.frame(m)), nil}
		part := same
		if same < 0 {
			part = pick(4, "how the connection fails")
		}
		switch part {
		case 0: // with a frame
			k.err = errs[i]
		case 1: // after a frame
		case 2: // in a frame
			k.b = k.b[:len(k.b)-2]
			k.err = errs[i]
		case 3: // at once
			k = chunk{nil, errs[i]}
		}
		vs.SendTo(c.ch)(k)
		vs.WaitIdle()
		if part == 1 {
			vs.SendTo(c.ch)(chunk{nil, errs[i]})
			vs.WaitIdle()
		}
		if part < 2 {
			total++
			if e := s.events; len(e) == 0 || e[len(e)-1].err != nil || e[len(e)-1].was != m {
				s.fail("%q is not received before the connection fails", m)
			}
		}
		if c.closed != 1 {
			s.fail("connection %d failed and is closed %d times", i, c.closed)
		}
		if read {
			if l := drain(s.errs); len(l) != 1 || l[0] != errs[i] {
				s.fail("failure %d is reported as %v", i, l)
			}
		} else if i == 0 {
			first = errs[0]
		}
	}
	m := "<13>1 - - - - - - other"
	vs.SendTo(b.ch)(chunk{[]byte(t.frame(m)), nil})
	vs.WaitIdle()
	if e := s.events; len(e) == 0 || e[len(e)-1].was != m {
		s.fail("the last connection is not served after %d failures", n)
	}
	if !read && n > 0 {
		l := drain(s.errs)
		if len(l) == 0 || l[0] != first {
			s.fail("the first of %d unread failures is reported as %v", n, l)
		}
		k := 0
		for _, e := range l { // in order, each at most once
			for k < n && errs[k] != e {
				k++
			}
			if k == n {
				s.fail("failures are reported as %v", l)
				break
			}
			k++
		}
	}
	// the receiver is ended before the last connection fails
	if pick(2, "end first") == 1 {
		s.r.End()
		s.ended = true
	}
	vs.SendTo(b.ch)(chunk{[]byte("x"), errRead})
	vs.WaitIdle()
	if b.closed != 1 {
		s.fail("the last connection is closed %d times", b.closed)
	}
	if !s.ended {
		s.r.End()
		vs.WaitIdle()
	}
	if !s.closed {
		s.fail("Receive does not report the end")
	}
	return s.bad
}

func init() {
	reg(&mc.Property{ID: "C09", Hang: 2 * time.Minute, Assume: []string{"the controlled scheduler keeps the meaning of the Go operations it stands in for", "a reader returns at most len(p) bytes, and no error but io.EOF means the end of the stream"},
		Bounds: func(deep bool) string {
			k := 0
			if deep {
				k = 1
			}
			return fmt.Sprintf("streams of bytes in one read, byte by byte and with empty reads, 2 (thorough 4) ways of ending, beside another connection: all strings of up to %d of 16 tokens, structured data of up to %d of 9 tokens, time qualities of up to %d of 10 tokens, octet counts of up to %d characters, of one digit up to 42 times and around every power of 2 up to 2^66, every edit (removal of 1 to 3 bytes, insertion, replacement, truncation, repetition) of 3 messages and of a timestamp; a read failure at every position of a stream of two messages; read failures of about 200 kinds (every errno, time-outs, wrapped errors) after up to 3 frames and in a frame; up to 12 failing connections, and up to 300 (thorough 2100) ones that fail or end in garbage (two schedules each); the same strings, one token longer, through Parse with every transport and all accessors, and through every parsing function, with all strings of two bytes", 3+k, 4+k, 3+k, 4+k)
		},
		Units: func(deep bool) (u []mc.Unit) {
			for _, t := range transports {
				t := t
				u = append(u, crowd(t, deep, 2, 3))
				u = append(u, serially(t.name+"-failures", 0, func() string {
					p := &stream{t: t, end: []int{errApart, errWith}[pick(2, "end")], queue: pick(2, "queue"), failure: kinds[pick(len(kinds), "kind")]}
					if p.failure == io.EOF {
						return ""
					}
					p.frames = []fr{good(t, "<13>1 - - - - - - first"), malformed(t, "<13>1 - -"), good(t, "<13>1 - - - - - - last")}[:pick(4, "frames")]
					if pick(2, "in a frame") == 1 {
						p.tail = t.frame("<13>1 - - - - - - cut short")[:12]
					}
					return p.run().bad
				}))
				for _, g := range genBytes(deep) {
					g := g
					for e := 0; e < numEnds; e++ {
						e := e
						if !deep && g.name != "fields" && e != eofApart && e != errWith {
							continue
						}
						u = append(u, raw(fmt.Sprintf("%s-%s-%d", t.name, g.name, e), t, func(ch chooser) (string, []int, int, int) {
							s := g.gen(ch)
							switch ch(3) {
							case 1: // framed, then another frame
								if g.name != "header" && g.name != "counts" {
									s = t.frame(s) + t.frame("<13>1 - - - - - - next")
								}
							case 2: // after a frame
								s = t.frame("<13>1 - - - - - - first") + s
							}
							var cuts []int
							switch ch(2) {
							case 1:
								for i := 1; i < len(s); i++ {
									cuts = append(cuts, i)
									if i == 1 {
										cuts = append(cuts, i) // an empty read
									}
								}
							}
							return s, cuts, e, 1
						}))
					}
				}
				u = append(u, raw(t.name+"-positions", t, func(ch chooser) (string, []int, int, int) {
					s := t.frame(seeds[0]) + t.frame(seeds[1])
					n := ch(len(s) + 1)
					s = s[:n]
					var cuts []int
					switch k := ch(3); k {
					case 1:
						if n > 1 {
							cuts = []int{1 + ch(n-1)}
						}
					case 2:
						if n > 0 {
							i := ch(n)
							cuts = []int{i, i, n}
						}
					}
					return s, cuts, ch(numEnds), len(cuts) % 2
				}))
				for _, n := range []int{1, 2, 3, 12} {
					n := n
					var bad string
					u = append(u, mc.Unit{Name: fmt.Sprintf("%s-failures-%d", t.name, n), Run: func(c *mc.C) {
						c.Explore(mc.Sched{Cfg: serial, Body: func() {
							bad = failures(n, 1, t)
						}, Check: func(o *vs.Outcome) string {
							if m := settled(o); m != "" {
								return m
							}
							return bad
						}})
					}})
				}
			}
			enum := func(name string, gen func(ch chooser) string) {
				u = append(u, mc.Unit{Name: "parse-" + name, Run: func(c *mc.C) {
					c.Enumerate(func(x *mc.X) {
						s := gen(x.Choose)
						parseAll(x, s)
						functions(x, s)
						if i := strings.IndexByte(s, '['); i >= 0 {
							functions(x, s[i:])
						}
						if c.WantSample() && len(s) > 3 {
							c.Sample("%q", s)
						}
					})
				}})
			}
			for _, g := range genBytes(true) {
				enum(g.name, g.gen)
			}
			for _, g := range genBytes(deep) {
				g := g
				u = append(u, mc.Unit{Name: "parse-long-" + g.name, Run: func(c *mc.C) {
					c.Enumerate(func(x *mc.X) { parseLong(g.gen(x.Choose)) })
				}})
			}
			for i := range seeds {
				m := seeds[i]
				enum(fmt.Sprintf("two-edits-%d", i), func(ch chooser) string {
					if deep {
						return ch.edit(ch.edit(m, sdTokens), sdTokens)
					}
					return ch.edit(ch.edit(m[strings.LastIndex(m, " -")-4:], sdTokens[:6]), sdTokens[:6])
				})
			}
			enum("two-bytes", func(ch chooser) string {
				return []string{"", "<13>1 - - - - - ", "<13>1 - - - - - [a", "<13>1 - - - - - [a ", `<13>1 - - - - - [a b="`}[ch(5)] + string([]byte{byte(ch(256)), byte(ch(256))})
			})
			enum("elements", func(ch chooser) string { return "[" + ch.str(append(sdTokens[1:8:8], `a="a"`, "timeQuality"), 5) })
			enum("timequalities", func(ch chooser) string { return ch.str(tqTokens, 5) })
			return
		}})
}
