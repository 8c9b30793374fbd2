package main

import (
	"fmt"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/mc"
	"verif/vs"
)

// parts are what a message is made of.
type parts struct {
	prio                      int
	ts                        string
	host, app, proc, id, text string
	sd                        bool
}

func (f parts) message() syslog5424.Message {
	var ts time.Time
	if f.ts != "-" {
		var err error
		if ts, err = time.Parse(time.RFC3339, f.ts); err != nil {
			mc.Broken("%v", err)
		}
	}
	m := syslog5424.CreateWholeMessage(syslog5424.Priority(f.prio), ts, f.host, f.app, f.proc, f.id, f.text)
	if f.sd {
		m = m.StructuredData(timequality.TimeQuality{TzKnown: true})
	}
	return m
}

func (f parts) wire() string {
	sd := "-"
	if f.sd {
		sd = `[timeQuality tzKnown="1"]`
	}
	s := fmt.Sprintf("<%d>1 %s %s %s %s %s %s", f.prio, f.ts, f.host, f.app, f.proc, f.id, sd)
	if f.text != "" {
		s += " " + f.text
	}
	return s
}

// alikes are messages that are the same or differ in one thing.
var alikes = func() (l []struct {
	name string
	m    [2]parts
}) {
	base := parts{14, "2003-10-11T22:14:15Z", "host", "app", "p", "m", "text", false}
	add := func(name string, change func(f *parts)) {
		f := base
		change(&f)
		l = append(l, struct {
			name string
			m    [2]parts
		}{name, [2]parts{base, f}})
	}
	add("same", func(f *parts) {})
	add("emerg", func(f *parts) { f.prio = 8 })
	add("debug", func(f *parts) { f.prio = 15 })
	add("kern", func(f *parts) { f.prio = 0 })
	add("last", func(f *parts) { f.prio = 191 })
	add("later", func(f *parts) { f.ts = "2003-10-11T22:14:16Z" })
	add("earlier", func(f *parts) { f.ts = "1999-10-11T22:14:16Z" })
	add("future", func(f *parts) { f.ts = "2203-10-11T22:14:16.5+02:00" })
	add("timeless", func(f *parts) { f.ts = "-" })
	add("host", func(f *parts) { f.host = "a" })
	add("app", func(f *parts) { f.app = "a/b" })
	add("proc", func(f *parts) { f.proc = "-" })
	add("id", func(f *parts) { f.id = "-" })
	add("text", func(f *parts) { f.text = "text, longer" })
	add("empty", func(f *parts) { f.text = "" })
	add("data", func(f *parts) { f.sd = true })
	add("short", func(f *parts) { f.text, f.id, f.proc = "", "-", "-" })
	add("nothing", func(f *parts) { *f = parts{0, "-", "-", "-", "-", "-", "", false} })
	add("epoch", func(f *parts) { *f = parts{0, "1970-01-01T00:00:00Z", "-", "-", "-", "-", "", false} })
	return
}()

// alike: every history of sends of two messages that are alike and ticks, on a destination that may fail once.
// With flush, everything is due after each tick and nothing before the first.
func alike(t transport, depth int, fails []outcome, flush bool) (u []mc.Unit) {
	for _, a := range alikes {
		a := a
		var two [2]syslog5424.Message
		var q struct {
			d    *dest
			want []string
			bad  string
			what string
		}
		u = append(u, prepared(func() {
			for i, f := range a.m {
				two[i] = f.message()
			}
		}, unit(fmt.Sprintf("alike-%s-%s", t.name, a.name), serial, func() {
			q.d, q.want, q.bad, q.what = &dest{}, nil, "", ""
			if len(fails) > 0 {
				q.d.down, q.d.downFor = fails[pick(len(fails), "failure")], 1
				if q.d.down != wConnect {
					q.d.downFrom = pick(3, "first failure")
				}
			}
			tick := make(chan time.Time)
			s, errs := syslog5424.NewSender(q.d, t.t, tick)
			for i := 0; i < depth; i++ {
				k := pick(3, "operation")
				q.what += string("ab|"[k])
				if k == 2 {
					vs.SendTo(tick)(time.Time{})
					vs.WaitIdle()
					if q.d.down == wOK && q.bad == "" {
						q.bad = carried(t, q.d, q.want, flush)
					}
					continue
				}
				if err := s.Send(two[k]); err != nil && q.bad == "" {
					q.bad = fmt.Sprintf("Send: %v", err)
				}
				q.want = append(q.want, t.frame(a.m[k].wire()))
				if flush && !strings.Contains(q.what, "|") {
					if vs.WaitIdle(); q.bad == "" {
						q.bad = carried(t, q.d, nil, true)
					}
				}
			}
			s.End()
			for it := vs.Range(errs); it.Next(); {
			}
		}, func(o *vs.Outcome) string {
			msg := settled(o)
			if msg == "" {
				msg = q.bad
			}
			if msg == "" {
				msg = carried(t, q.d, q.want, true)
			}
			if msg != "" {
				return fmt.Sprintf("history %s, a: %s, b: %s: %s", q.what, a.m[0].wire(), a.m[1].wire(), msg)
			}
			return ""
		})))
	}
	return
}

// carried tells what is wrong with what the connections carried, if want is what was accepted.
func carried(t transport, d *dest, want []string, complete bool) string {
	if d.wrong != "" {
		return d.wrong
	}
	pos := 0
	cut := false
	for n, c := range d.conns {
		b := string(c.b)
		for pos < len(want) && strings.HasPrefix(b, want[pos]) {
			b = b[len(want[pos]):]
			pos++
			cut = false
		}
		if b == "" {
			continue
		}
		if pos == len(want) || !strings.HasPrefix(want[pos], b) || !c.failed && (complete || n < len(d.conns)-1) {
			return fmt.Sprintf("connection %d carries %q, where the frame %d is due of %q", n, c.b, pos, want)
		}
		cut = true
	}
	if complete && (cut || pos < len(want)) {
		return fmt.Sprintf("the frame %d of %q is not written whole", pos, want)
	}
	return ""
}
