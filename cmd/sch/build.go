package main

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"

	"verif/mc"
	"verif/ref"
	"verif/vs"
)

// header is what RFC 5424 allows of a header value.
func header(s string, max int) string {
	if s == "" {
		return "-"
	}
	if len(s) > max {
		s = s[:max]
	}
	b := []byte(s)
	for i, c := range b {
		if c < '!' || c > '~' {
			b[i] = '%'
		}
	}
	return string(b)
}

func host(s string) string { return header(s, 255) }
func app(s string) string  { return header(s, 48) }
func proc(s string) string { return header(s, 128) }
func id(s string) string   { return header(s, 32) }

// under is the application name of something called sub under parent.
func under(parent, sub string) string {
	if parent == "-" {
		return app(sub)
	}
	return app(parent + "/" + sub)
}

var spaces = []string{"\t", "\n", "\v", "\f", "\r", " ", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2001", "\u2002", "\u2003", "\u2004", "\u2005", "\u2006",
	"\u2007", "\u2008", "\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"}

// text is a text without its trailing white space.
func text(s string) string {
again:
	for _, w := range spaces {
		if strings.HasSuffix(s, w) {
			s = s[:len(s)-len(w)]
			goto again
		}
	}
	return s
}

// wantMsg is what a message must say.
type wantMsg struct {
	pri                      int
	us                       ref.Micros
	host, app, proc, id, txt string
	sd                       []ref.Elem
}

func microsOf(t time.Time) ref.Micros {
	return ref.Micros(t.Unix()*1000000 + int64(t.Nanosecond())/1000)
}

// judgeMsg compares an encoded message with what it must say, read by the reference and by the library.
func judgeMsg(b string, w wantMsg) string {
	m, err := ref.Parse([]byte(b), 255)
	if err != nil {
		return fmt.Sprintf("%q is not valid: %v", clipped(b), err)
	}
	us, err := ref.Instant(m.TS)
	if err != nil {
		return fmt.Sprintf("%q: %v", clipped(b), err)
	}
	lm, rest, err := syslog5424.Parse([]byte(b), nil, true)
	if err != nil || len(rest) > 0 {
		return fmt.Sprintf("%q is refused by the library: %v, rest %q", clipped(b), err, clipped(string(rest)))
	}
	for _, f := range []struct{ what, got, lib, want string }{
		{"priority", strconv.Itoa(m.Pri), strconv.Itoa(int(lm.Priority())), strconv.Itoa(w.pri)},
		{"instant", strconv.Itoa(int(us)), strconv.Itoa(int(microsOf(lm.TimeStamp()))), strconv.Itoa(int(w.us))},
		{"host name", m.Host, lm.Hostname(), w.host},
		{"application name", m.App, lm.AppName(), w.app},
		{"process id", m.Proc, lm.ProcID(), w.proc},
		{"message id", m.MsgID, lm.MsgID(), w.id},
		{"text", m.Text, lm.Text(), w.txt},
		{"structured data", ref.SDString(m.SD), lm.StructuredData().String(), ref.SDString(w.sd)},
	} {
		if f.got != f.want {
			return fmt.Sprintf("%q has the %s %q, wanted %q", clipped(b), f.what, clipped(f.got), clipped(f.want))
		}
		if f.lib != f.want {
			return fmt.Sprintf("%q is decoded by the library with the %s %q, wanted %q", clipped(b), f.what, clipped(f.lib), clipped(f.want))
		}
	}
	if i := strings.IndexByte(m.TS, '.'); i >= 0 && strings.LastIndexAny(m.TS, "0123456789") > 0 && len(m.TS)-i > 13 {
		return fmt.Sprintf("%q has a timestamp with too many digits", clipped(b))
	}
	return ""
}

var headTok = []string{"a", " ", "\n", "\x00", "\x1f", "!", "~", "\x7f", "\x80", "\xff", "-", `"`, "[", "]", "%", "/", "=", "\u00e9", "\u2028"}
var textTok = []string{"a", " ", "\n", "\t", "\x00", "\u0085", "\u00a0", "\u3000", "\x85", "\xa0", "\xc2", "\xe2\x80", "\xef\xbb\xbf", "\u200b", "-", "[x]"}

// strings of the header fields
func genHead(ch chooser, deep bool) string {
	n := 3
	if deep {
		n = 4
	}
	switch ch(4) {
	case 0:
		return string([]byte{byte(ch(256))})
	case 1:
		s := string([]byte{byte(ch(256))})
		return "ab" + s + "cd"
	case 2:
		return ch.str(headTok, n)
	default:
		l := ch(300)
		return "a"[:ch(2)] + strings.Repeat([]string{"x", " ", "\u00e9", "-"}[ch(4)], l)
	}
}

func genText(ch chooser, deep bool) string {
	n := 4
	if deep {
		n = 5
	}
	switch ch(5) {
	case 0:
		return string([]byte{byte(ch(256)), byte(ch(256))})
	case 1:
		return ch.str(textTok, n)
	case 2:
		return "t" + ch.str(append(append([]string{}, spaces...), "z"), 2)
	case 3:
		return strings.Repeat("long ", []int{1, 100, 409, 410, 820, 13107, 13108, 20000}[ch(8)])
	default:
		return []string{" lead", "-", "- x", "[a]", `[a b="c"] d`, "<13>1 - - - - - -", "\xef\xbb\xbfbom", " ", "\n\n"}[ch(9)]
	}
}

// built makes messages through every constructor and setter.
func built(ch chooser, field int, deep bool) (m syslog5424.Message, w wantMsg) {
	ts := time.Date(2003, 10, 11, 22, 14, 15, 3000000, time.UTC)
	w = wantMsg{pri: 165, us: microsOf(ts), host: "h", app: "a", proc: "p", id: "i", txt: "t"}
	f := [5]string{"h", "a", "p", "i", "t"}
	set := [5]*string{&w.host, &w.app, &w.proc, &w.id, &w.txt}
	norm := [5]func(string) string{host, app, proc, id, text}
	if field < 5 {
		if field == 4 {
			f[4] = genText(ch, deep)
		} else {
			f[field] = genHead(ch, deep)
		}
	} else { // all at once
		for i := range f {
			f[i] = []string{"", "-", "a b", "\u00e9", "x\n"}[ch(5)]
		}
	}
	for i := range f {
		*set[i] = norm[i](f[i])
	}
	switch ch(4) {
	case 0:
		m = syslog5424.CreateWholeMessage(165, ts, f[0], f[1], f[2], f[3], f[4])
	case 1:
		m = syslog5424.EmptyMessage().Priority(165).Time(ts).Host(f[0]).AppName(f[1]).ProcID(f[2]).MsgID(f[3]).Msg(f[4])
	case 2:
		m = syslog5424.CreateMessage(f[1], 165, f[4]).MsgID(f[3]).ProcID(f[2]).Host(f[0]).Time(ts)
	case 3: // over another one
		m = syslog5424.CreateWholeMessage(3, ts.Add(time.Hour), "other", "other", "other", "other", "other").Msg(f[4]).ProcID(f[2]).Time(ts).MsgID(f[3]).AppName(f[1]).Host(f[0]).Priority(165)
	}
	return
}

// sink collects the messages of a sender.
func collect(use func(s *syslog5424.Sender)) (l []string, msg string) {
	d := &dest{}
	s, _ := syslog5424.NewSender(d, syslog5424.TransportRFC5425, nil)
	use(s)
	s.End()
	for _, c := range d.conns {
		b := string(c.b)
		for b != "" {
			i := strings.IndexByte(b, ' ')
			if i < 0 {
				return l, fmt.Sprintf("%q is no frame", clipped(b))
			}
			n, err := strconv.Atoi(b[:i])
			if err != nil || len(b) < i+1+n {
				return l, fmt.Sprintf("%q is no frame", clipped(b))
			}
			l = append(l, b[i+1:i+1+n])
			b = b[i+1+n:]
		}
	}
	return l, ""
}

// child prints what a program on a host with the given name sends (VS_HOSTNAME is set).
func child() {
	ts := time.Date(2003, 10, 11, 22, 14, 15, 3000000, time.UTC)
	show := func(m syslog5424.Message) {
		b, err := m.Marshal5424()
		fmt.Printf("%q %v\n", b, err)
	}
	show(syslog5424.CreateMessage("a", 165, "t").Time(ts).ProcID("p").MsgID("i"))
	show(syslog5424.CreateWholeMessage(165, ts, "x", "a", "p", "i", "t").LocalHost())
	syslog5424.Now = func() time.Time { return ts }
	w := make(chan string, 10)
	s, _ := syslog5424.NewSender(syslog5424.ConnectorFunc(func() (syslog5424.WriteCloser, error) { return capture(w), nil }), syslog5424.TransportZeroEnded, nil)
	sl, err := syslog5424.New(s, syslog5424.LogLOCAL4|syslog5424.LogNOTICE, "a")
	if err != nil {
		fmt.Printf("%q %v\n", "", err)
		return
	}
	sl.Channel(syslog5424.LogNOTICE).Msgid("i").Log("t")
	sl.SubSyslog("b").Channel(syslog5424.LogNOTICE).Msgid("i").Log("t")
	s.End()
	close(w)
	all := ""
	for b := range w {
		all += b
	}
	for _, m := range strings.Split(strings.TrimSuffix(all, "\x00"), "\x00") {
		fmt.Printf("%q %v\n", m, nil)
	}
	fmt.Println(os.Getpid())
}

type capture chan string

func (c capture) Write(p []byte) (int, error) { c <- string(p); return len(p), nil }
func (c capture) Close() error                { return nil }

// hosted runs child with a host name.
func hosted(x *mc.X, name string, fails bool) {
	exe, err := os.Executable()
	if err != nil {
		mc.Broken("%v", err)
	}
	cmd := exec.Command(exe)
	env := name
	if fails {
		env = "\x01error"
	}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VS_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VS_CHILD=1", "VS_HOSTNAME="+env)
	out, err := cmd.CombinedOutput()
	if err != nil {
		x.Fail("with the host name %q: %v\n%s", name, err, out)
	}
	l := strings.Split(strings.TrimSpace(string(out)), "\n")
	if len(l) != 5 {
		x.Fail("with the host name %q: %s", name, out)
	}
	pid := l[4]
	ts := time.Date(2003, 10, 11, 22, 14, 15, 3000000, time.UTC)
	for i, s := range l[:4] {
		s = strings.TrimSuffix(s, " <nil>")
		b, err := strconv.Unquote(s)
		if err != nil {
			x.Fail("with the host name %q: %s", name, out)
		}
		w := wantMsg{pri: 165, us: microsOf(ts), host: host(name), app: "a", proc: "p", id: "i", txt: "t"}
		if i >= 2 {
			w.proc = pid
		}
		if i == 3 {
			w.app = "a/b"
		}
		if msg := judgeMsg(b, w); msg != "" {
			x.Fail("with the host name %q: %s", name, msg)
		}
	}
}

// derive is one step from a channel.
type derive struct {
	app bool
	arg string
}

// chain applies derivations and gives the application name and message id.
func chain(c syslog5424.Channel, a string, l []derive) (syslog5424.Channel, string, string) {
	i := "-"
	for _, d := range l {
		if d.app {
			c = c.AppName(d.arg)
			a = under(a, d.arg)
		} else {
			c = c.Msgid(d.arg)
			i = id(d.arg)
		}
	}
	return c, a, i
}

// explored runs body, whose choices are enumerated, under the scheduler; it returns what is wrong.
func explored(name string, start time.Time, body func(ch chooser) (desc, bad string)) mc.Unit {
	var desc, bad string
	return mc.Unit{Name: name, Run: func(c *mc.C) {
		cfg := serial
		cfg.Start = start
		c.Explore(mc.Sched{Cfg: cfg, Body: func() {
			desc, bad = "", ""
			desc, bad = body(func(n int) int {
				if n <= 1 {
					return 0
				}
				return vs.Choose(nil, n, 0, "pick")
			})
		}, Check: func(o *vs.Outcome) string {
			msg := settled(o)
			if msg == "" {
				msg = bad
			}
			if msg != "" {
				return msg + "\n  " + desc
			}
			if c.WantSample() {
				c.Sample("%s", desc)
			}
			return ""
		}})
	}}
}

var stampC13 = time.Date(2003, 10, 11, 22, 14, 15, 3999, time.UTC)

func init() {
	reg(&mc.Property{ID: "C13", Hang: 2 * time.Minute, Assume: []string{"the reference reader in /verif/ref is right", "priorities of 0 to 255", "white space is what Unicode calls White_Space"},
		Bounds: func(deep bool) string {
			n := 3
			if deep {
				n = 4
			}
			return fmt.Sprintf("each header field through 4 ways of building a message, and application names and message ids through channels and sub-syslogs: every single byte alone and inside, strings of up to %d of 19 tokens, lengths 0 to 300 of 4 characters; texts of all byte pairs, up to %d of 16 tokens, all white space; header fields and texts of each length within 4 of a power of 2 or 10 up to 128 KiB (thorough: within 9, 2 MiB), of 7 kinds of characters, cut anywhere; combinations of 5 values of the 5 fields; priorities 0 to 255; local host names of every single byte, special values and lengths, and an unknown host name", n, n+1)
		},
		Units: func(deep bool) (u []mc.Unit) {
			for f := 0; f < 6; f++ {
				f := f
				u = append(u, mc.Unit{Name: []string{"host", "app", "procid", "msgid", "text", "all"}[f], Run: func(c *mc.C) {
					c.Enumerate(func(x *mc.X) {
						m, w := built(x.Choose, f, deep)
						b, err := m.Marshal5424()
						if err != nil {
							x.Fail("%v", err)
						}
						if msg := judgeMsg(string(b), w); msg != "" {
							x.Fail("%s", msg)
						}
						if s := m.String(); s != string(b) {
							x.Fail("String gives %q, Marshal5424 %q", clipped(s), clipped(string(b)))
						}
						if c.WantSample() {
							c.Sample("%q", clipped(string(b)))
						}
					})
				}})
			}
			sizes := around(1, 1<<17, 4, 4)
			if deep {
				sizes = around(1, 1<<21, 9, 9)
			}
			u = append(u, mc.Unit{Name: "large", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					ts := time.Date(2003, 10, 11, 22, 14, 15, 3000000, time.UTC)
					w := wantMsg{pri: 165, us: microsOf(ts), host: "h", app: "a", proc: "p", id: "i", txt: "t"}
					f := [5]string{"h", "a", "p", "i", "t"}
					set := [5]*string{&w.host, &w.app, &w.proc, &w.id, &w.txt}
					norm := [5]func(string) string{host, app, proc, id, text}
					k := x.Choose(5)
					n := sizes[x.Choose(len(sizes))]
					v := strings.Repeat([]string{"x", "\u00e9", "\u20ac", "\U0001f600", "\xff", "line\n", "a "}[x.Choose(7)], n)[:n]
					if k == 4 {
						v += []string{"", "\n", ".", "\u3000", "\xe3"}[x.Choose(5)]
					}
					f[k] = v
					*set[k] = norm[k](v)
					var m syslog5424.Message
					if x.Choose(2) == 0 {
						m = syslog5424.CreateWholeMessage(165, ts, f[0], f[1], f[2], f[3], f[4])
					} else {
						m = syslog5424.EmptyMessage().Priority(165).Time(ts).Host(f[0]).AppName(f[1]).ProcID(f[2]).MsgID(f[3]).Msg(f[4])
					}
					b, err := m.Marshal5424()
					if err != nil {
						x.Fail("field %d of %d bytes: %v", k, n, err)
					}
					if msg := judgeMsg(string(b), w); msg != "" {
						x.Fail("field %d of %d bytes: %s", k, n, msg)
					}
					if c.WantSample() {
						c.Sample("field %d of %d bytes", k, n)
					}
				})
			}})
			u = append(u, mc.Unit{Name: "priorities", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					p := x.Choose(256)
					ts := time.Date(2003, 10, 11, 22, 14, 15, 3999, time.FixedZone("", []int{0, 3600, -12600}[x.Choose(3)]))
					w := wantMsg{pri: p, us: microsOf(ts), host: "h", app: "a", proc: "p", id: "i", txt: "t"}
					m := syslog5424.CreateWholeMessage(syslog5424.Priority(p), ts, "h", "a", "p", "i", "t")
					if x.Choose(2) == 1 {
						m = m.StructuredData(sdata.GenericSD(apiSD{Key: `"]\`})).Msg("")
						w.txt = ""
						w.sd = []ref.Elem{{ID: "sd@32473", Params: []ref.Param{{Name: "Key", Raw: `\"\]\\`}}}}
					}
					b, err := m.Marshal5424()
					if err != nil {
						x.Fail("%v", err)
					}
					if msg := judgeMsg(string(b), w); msg != "" {
						x.Fail("%s", msg)
					}
				})
			}}, mc.Unit{Name: "local-host", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					n := x.Choose(4)
					switch n {
					case 0:
						hosted(x, []string{"", "-", "a.b", "h\u00f6st", "a b", "[::1]", "\"", "a\tb"}[x.Choose(8)], false)
					case 1:
						hosted(x, "-", true)
					case 2:
						hosted(x, strings.Repeat([]string{"h", "\u00e9"}[x.Choose(2)], []int{1, 127, 128, 254, 255, 256, 300}[x.Choose(7)]), false)
					case 3:
						k := 8
						if c.Thorough {
							k = 1
						}
						hosted(x, "a"+string([]byte{byte(2 + x.Choose(254/k)*k)}), false)
					}
				})
			}})
			// through channels
			for k := 0; k < 4; k++ {
				k := k
				u = append(u, explored(fmt.Sprintf("channel-%d", k), stampC13, func(ch chooser) (string, string) {
					name, sub, derived, mid := "app", "", "", "-"
					switch k {
					case 0:
						if name = genHead(ch, false); name == "" {
							name = "-"
						}
					case 1:
						sub = genHead(ch, false)
					case 2:
						derived = genHead(ch, false)
					case 3:
						mid = genHead(ch, false)
					}
					how := ch(3)
					parts := ch(2)
					txt := "text\n"
					var bad string
					w := wantMsg{pri: 13, us: microsOf(stampC13), host: "localhost", app: app(name), proc: "1234", id: id(mid), txt: "text"}
					l, err := collect(func(s *syslog5424.Sender) {
						sl, err := syslog5424.New(s, syslog5424.LogUSER|syslog5424.LogNOTICE, name)
						if err != nil {
							bad = err.Error()
							return
						}
						sl.TestMode()
						if k == 1 || parts == 1 {
							sl = sl.SubSyslog(sub)
							w.app = under(w.app, sub)
						}
						c := sl.Channel(syslog5424.LogNOTICE)
						if k == 2 || parts == 1 {
							c = c.AppName(derived)
							w.app = under(w.app, derived)
						}
						if k == 3 {
							c = c.Msgid(mid)
						}
						switch how {
						case 0:
							c.Log(txt)
						case 1:
							c.Write([]byte(txt))
						case 2:
							c.Logger("").Print("text")
						}
					})
					desc := fmt.Sprintf("application name %q, sub-syslog %q, channel %q, message id %q", clipped(name), clipped(sub), clipped(derived), clipped(mid))
					if bad != "" || err != "" {
						return desc, bad + err
					}
					if len(l) != 1 {
						return desc, fmt.Sprintf("%d messages: %q", len(l), l)
					}
					return desc, judgeMsg(l[0], w)
				}))
			}
			u = append(u, explored("channel-text", stampC13, func(ch chooser) (string, string) {
				txt := genText(ch, deep)
				if len(txt) > 3000 {
					return "", ""
				}
				how := ch(2)
				l, err := collect(func(s *syslog5424.Sender) {
					sl, _ := syslog5424.New(s, syslog5424.LogUSER|syslog5424.LogNOTICE, "a")
					sl.TestMode()
					c := sl.Channel(syslog5424.LogNOTICE)
					if how == 0 {
						c.Log(txt)
					} else {
						c.Write([]byte(txt))
					}
				})
				desc := fmt.Sprintf("text %q", clipped(txt))
				if err != "" || len(l) != 1 {
					return desc, fmt.Sprintf("%d messages %q, %s", len(l), l, err)
				}
				return desc, judgeMsg(l[0], wantMsg{pri: 13, us: microsOf(stampC13), host: "localhost", app: "a", proc: "1234", id: "-", txt: text(txt)})
			}))
			return
		}})

	reg(&mc.Property{ID: "C17", Hang: 2 * time.Minute, Assume: []string{"the application name of something called b under a is a/b, and b under an absent name (as the package documents)"},
		Bounds: func(deep bool) string {
			n := 4
			if deep {
				n = 5
			}
			return fmt.Sprintf("all 32 facilities, 8 minimum severities, 8 severities, in a Syslog and under up to 2 sub-syslogs; all sequences of up to %d derivations of 6, each ended by one of 8 calls, and all sequences of 3 calls on one channel; 3 gaps of time (forth and back) at 6 places between opening, deriving, calling and End, with the system's clock and one of the program; 4 application names with up to 2 sub-syslogs and 2 derivations of 10 names, equal and alike ones among them", n)
		},
		Units: func(deep bool) (u []mc.Unit) {
			steps := []derive{{true, "n"}, {true, "long-name-of-twenty-bytes"}, {false, "i"}, {false, "j"}, {true, ""}, {false, ""}}
			depth := 4
			if deep {
				depth = 5
			}
			type call struct {
				name string
				do   func(c syslog5424.Channel) (string, bool)
				txt  string
			}
			w := func(s string) func(c syslog5424.Channel) (string, bool) {
				return func(c syslog5424.Channel) (string, bool) {
					n, err := c.Write([]byte(s))
					return fmt.Sprintf("Write of %d bytes returns %d, %v", len(s), n, err), n == len(s) && err == nil
				}
			}
			sd := sdata.GenericSD(apiSD{Key: "v"})
			calls := []call{
				{"log", func(c syslog5424.Channel) (string, bool) { c.Log("msg"); return "", true }, "msg"},
				{"log-sd", func(c syslog5424.Channel) (string, bool) { c.Log("with", sd); return "", true }, "with"},
				{"log-empty", func(c syslog5424.Channel) (string, bool) { c.Log(""); return "", true }, ""},
				{"write", w("line\n"), "line"},
				{"write-lines", w("one\ntwo\n"), "one\ntwo"},
				{"write-empty", w(""), ""},
				{"logger", func(c syslog5424.Channel) (string, bool) { c.Logger("pre: ").Print("x"); return "", true }, "pre: x"},
				{"logger-f", func(c syslog5424.Channel) (string, bool) { c.Logger("").Printf("%d\n", 5); return "", true }, "5"},
			}
			type made struct {
				call
				sev, app, id string
				pri          int
				at           time.Time // stampC13 if zero
			}
			// judged compares what was sent with the calls that were made
			judged := func(l []string, want []made, pid, h string) string {
				if len(l) != len(want) {
					return fmt.Sprintf("%d messages, wanted %d: %q", len(l), len(want), l)
				}
				for i, m := range want {
					x := wantMsg{pri: m.pri, us: microsOf(stampC13), host: h, app: m.app, proc: pid, id: m.id, txt: m.txt}
					if !m.at.IsZero() {
						x.us = microsOf(m.at)
					}
					if m.name == "log-sd" {
						x.sd = []ref.Elem{{ID: "sd@32473", Params: []ref.Param{{Name: "Key", Raw: "v"}}}}
					}
					got := l[i]
					if m.pri%8 == 7 && strings.HasPrefix(m.name, "logger") { // with the place of the call
						r, err := ref.Parse([]byte(got), 255)
						pre := strings.TrimSuffix(m.txt, "x")
						post := "x"
						if m.name == "logger-f" {
							pre, post = "", "5"
						}
						if err != nil || !strings.HasPrefix(r.Text, pre) || !strings.HasSuffix(r.Text, ": "+post) {
							return fmt.Sprintf("the debug logger sent %q", got)
						}
						x.txt = r.Text
					}
					if msg := judgeMsg(got, x); msg != "" {
						return msg
					}
				}
				return ""
			}
			open := func(s *syslog5424.Sender, pri int, test bool) *syslog5424.Syslog {
				sl, err := syslog5424.New(s, syslog5424.Priority(pri), "app")
				if err != nil {
					mc.Broken("%v", err)
				}
				if test {
					sl.TestMode()
				}
				return sl
			}
			real, _ := vs.Hostname()
			u = append(u, explored("thresholds", stampC13, func(ch chooser) (string, string) {
				fac, min, sev := ch(32), ch(8), ch(8)
				test := ch(2) == 1
				subs := ch(3)
				junk := ch(2) // facility bits in the severity asked for
				pid, h := strconv.Itoa(os.Getpid()), host(real)
				if test {
					pid, h = "1234", "localhost"
				}
				var want []made
				bad := ""
				desc := fmt.Sprintf("facility %d, minimum severity %d, severity %d, %d sub-syslogs", fac, min, sev, subs)
				l, err := collect(func(s *syslog5424.Sender) {
					sl := open(s, fac*8+min, test)
					a := "app"
					for i := 0; i < subs; i++ {
						sl = sl.SubSyslog("s")
						a += "/s"
					}
					for round := 0; round < 2; round++ {
						c := sl.Channel(syslog5424.Priority(sev + junk*24))
						if c.IsDevNull() != (sev > min) {
							bad = fmt.Sprintf("IsDevNull gives %v", c.IsDevNull())
						}
						for _, k := range []int{0, 3, 6} {
							if m, ok := calls[k].do(c); !ok {
								bad = m
							}
							if sev <= min {
								want = append(want, made{call: calls[k], app: a, id: "-", pri: fac*8 + sev})
							}
						}
					}
				})
				if bad+err != "" {
					return desc, bad + err
				}
				return desc, judged(l, want, pid, h)
			}))
			for _, min := range []int{0, 3, 7} {
				for sev := 0; sev < 8; sev++ {
					min, sev := min, sev
					u = append(u, explored(fmt.Sprintf("derivations-%d-%d", min, sev), stampC13, func(ch chooser) (string, string) {
						var l []derive
						for i := 0; i < depth; i++ {
							k := ch(len(steps) + 1)
							if k == 0 {
								break
							}
							l = append(l, steps[k-1])
						}
						k := calls[ch(len(calls))]
						sub := ch(2) == 1
						desc := fmt.Sprintf("minimum severity %d, severity %d, derivations %v, %s", min, sev, l, k.name)
						var want []made
						bad := ""
						got, err := collect(func(s *syslog5424.Sender) {
							sl := open(s, 16*8+min, true)
							a := "app"
							if sub {
								sl = sl.SubSyslog("sub")
								a = "app/sub"
							}
							c, a, i := chain(sl.Channel(syslog5424.Priority(sev)), a, l)
							if c.IsDevNull() != (sev > min) {
								bad = fmt.Sprintf("IsDevNull gives %v", c.IsDevNull())
							}
							if m, ok := k.do(c); !ok {
								bad = m
							}
							if sev <= min {
								want = append(want, made{call: k, app: a, id: i, pri: 128 + sev})
							}
						})
						if bad+err != "" {
							return desc, bad + err
						}
						return desc, judged(got, want, "1234", "localhost")
					}))
				}
			}
			for k, base := range []string{"app", "-", "a/p", "a"} {
				k, base := k, base
				u = append(u, explored(fmt.Sprintf("names-%d", k), stampC13, func(ch chooser) (string, string) {
					names := []string{"app", "a", "p", "-", "", "/", "app/app", "a/", "A", "app/sub"}
					var want []made
					bad := ""
					desc := fmt.Sprintf("a Syslog %q", base)
					got, err := collect(func(s *syslog5424.Sender) {
						sl, err := syslog5424.New(s, 16*8+5, base)
						if err != nil {
							bad = err.Error()
							return
						}
						sl.TestMode()
						a := app(base)
						for i := 0; i < 2; i++ {
							n := ch(len(names) + 1)
							if n == 0 {
								break
							}
							sl = sl.SubSyslog(names[n-1])
							a = under(a, names[n-1])
							desc += fmt.Sprintf(", SubSyslog(%q)", names[n-1])
						}
						c := sl.Channel(5)
						i := "-"
						for k := 0; k < 2; k++ {
							n := ch(len(names) + 1)
							if n == 0 {
								break
							}
							c = c.AppName(names[n-1])
							a = under(a, names[n-1])
							desc += fmt.Sprintf(", AppName(%q)", names[n-1])
						}
						switch ch(3) {
						case 1: // like the application
							c, i = c.Msgid(a), id(a)
						case 2: // twice the same, once another
							c, i = c.Msgid("i").Msgid("i").Msgid("i/i"), "i/i"
						}
						calls[0].do(c)
						want = append(want, made{call: calls[0], app: a, id: i, pri: 133})
					})
					if bad+err != "" {
						return desc, bad + err
					}
					return desc, judged(got, want, "1234", "localhost")
				}))
			}
			u = append(u, explored("calls", stampC13, func(ch chooser) (string, string) {
				sev := []int{0, 4, 7}[ch(3)]
				l := []derive{}
				for i := 0; i < 2; i++ {
					if k := ch(3); k > 0 {
						l = append(l, steps[2*k-2])
					}
				}
				var ks []int
				for i := 0; i < 3; i++ {
					ks = append(ks, ch(len(calls)))
				}
				var want []made
				bad := ""
				got, err := collect(func(s *syslog5424.Sender) {
					c, a, i := chain(open(s, 8+4, true).Channel(syslog5424.Priority(sev)), "app", l)
					for _, k := range ks {
						if m, ok := calls[k].do(c); !ok {
							bad = m
						}
						if sev <= 4 {
							want = append(want, made{call: calls[k], app: a, id: i, pri: 8 + sev})
						}
					}
				})
				desc := fmt.Sprintf("severity %d, derivations %v, calls %v", sev, l, ks)
				if bad+err != "" {
					return desc, bad + err
				}
				return desc, judged(got, want, "1234", "localhost")
			}), explored("times", stampC13, func(ch chooser) (string, string) {
				own := ch(3) // 1: before opening, 2: before the first call
				now := syslog5424.Now
				defer func() { syslog5424.Now = now }()
				at := stampC13
				gaps := []time.Duration{0, time.Microsecond, time.Minute}
				if own > 0 { // may go back
					gaps[2] = -time.Hour
				}
				replace := func() { syslog5424.Now = func() time.Time { return at.In(time.FixedZone("", 3600)) } }
				if own == 1 {
					replace()
				}
				desc := ""
				pass := func() {
					d := gaps[ch(len(gaps))]
					at = at.Add(d)
					desc += d.String() + " "
					if own == 0 && d > 0 {
						vs.Sleep(d)
					}
				}
				var want []made
				bad := ""
				k := []int{0, 3, 6}[ch(3)]
				got, err := collect(func(s *syslog5424.Sender) {
					sl := open(s, 8+4, true)
					pass()
					c := sl.Channel(4)
					pass()
					c = c.AppName("n")
					if own == 2 {
						replace()
					}
					for i := 0; i < 3; i++ {
						pass()
						if m, ok := calls[k].do(c); !ok {
							bad = m
						}
						want = append(want, made{call: calls[k], app: "app/n", id: "-", pri: 12, at: at})
					}
					pass()
				})
				desc = fmt.Sprintf("the program's clock %d, gaps %s, call %s", own, desc, calls[k].name)
				if bad+err != "" {
					return desc, bad + err
				}
				return desc, judged(got, want, "1234", "localhost")
			}))
			return
		}})
}
