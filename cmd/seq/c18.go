package main

import (
	"fmt"
	"strconv"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
)

// The names and numbers of RFC 5424, as the library spells them.
var facilities = []struct {
	name string
	n    int
}{{"kern", 0}, {"user", 1}, {"mail", 2}, {"daemon", 3}, {"auth", 4}, {"syslog", 5}, {"lpr", 6}, {"news", 7}, {"uucp", 8}, {"cron", 9}, {"authpriv", 10}, {"ftp", 11},
	{"local0", 16}, {"local1", 17}, {"local2", 18}, {"local3", 19}, {"local4", 20}, {"local5", 21}, {"local6", 22}, {"local7", 23}}
var severities = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}

var constants = map[string]syslog5424.Priority{
	"kern": syslog5424.LogKERN, "user": syslog5424.LogUSER, "mail": syslog5424.LogMAIL, "daemon": syslog5424.LogDAEMON, "auth": syslog5424.LogAUTH, "syslog": syslog5424.LogSYSLOG,
	"lpr": syslog5424.LogLPR, "news": syslog5424.LogNEWS, "uucp": syslog5424.LogUUCP, "cron": syslog5424.LogCRON, "authpriv": syslog5424.LogAUTHPRIV, "ftp": syslog5424.LogFTP,
	"local0": syslog5424.LogLOCAL0, "local1": syslog5424.LogLOCAL1, "local2": syslog5424.LogLOCAL2, "local3": syslog5424.LogLOCAL3, "local4": syslog5424.LogLOCAL4,
	"local5": syslog5424.LogLOCAL5, "local6": syslog5424.LogLOCAL6, "local7": syslog5424.LogLOCAL7,
}
var sevConstants = []syslog5424.Priority{syslog5424.LogEMERG, syslog5424.LogALERT, syslog5424.LogCRIT, syslog5424.LogERR, syslog5424.LogWARNING, syslog5424.LogNOTICE, syslog5424.LogINFO, syslog5424.LogDEBUG}

func setText(x *mc.X, s string, valid map[string]int) {
	for _, before := range []syslog5424.Priority{0, 13, 191} {
		p := before
		err := p.Set(s)
		if n, ok := valid[s]; ok {
			if err != nil || int(p) != n {
				x.Fail("Set(%q) gives %d, %v; want %d", s, p, err, n)
			}
		} else if err == nil {
			x.Fail("Set(%q) is accepted and gives %d", s, p)
		} else if p != before {
			x.Fail("Set(%q) is refused and changes the priority from %d to %d", s, before, p)
		}
	}
}

func headerText(x *mc.X, s string) {
	want := -1
	if n := len(s); n >= 4 && s[0] == '<' && s[n-2:] == ">1" {
		d := s[1 : n-2]
		if v, err := strconv.Atoi(d); err == nil && v >= 0 && v <= 255 && strconv.Itoa(v) == d {
			want = v
		}
	}
	p := syslog5424.Priority(77)
	b := []byte(s)
	err := p.Unmarshal5424(b)
	switch {
	case want >= 0 && (err != nil || int(p) != want):
		x.Fail("Unmarshal5424(%q) gives %d, %v", s, p, err)
	case want < 0 && err == nil:
		x.Fail("Unmarshal5424(%q) is accepted and gives %d", s, p)
	case string(b) != s:
		x.Fail("Unmarshal5424(%q) changed its input to %q", s, b)
	}
}

var c18 = &mc.Property{
	ID: "C18",
	Bounds: func(deep bool) string {
		return "all 256 priorities; all facility and severity names in all combinations, with every single-byte insertion, deletion and replacement of each name; all strings of up to 7 (thorough 8) characters over '<', '>', digits 0 1 2 5 9, 'a' as header text, all three-digit forms and every single-byte edit of the 256 encodings"
	},
	Assume: []string{"facility numbers and names of RFC 5424 table 1 with the names used by the package"},
	Units: func(deep bool) (l []mc.Unit) {
		valid := map[string]int{}
		for _, f := range facilities {
			for s, n := range severities {
				valid[f.name+"."+n] = f.n*8 + s
			}
		}
		l = append(l, mc.Unit{Name: "numbers", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				n := x.Choose(256)
				p := syslog5424.Priority(n)
				b, err := p.Marshal5424()
				if err != nil || string(b) != "<"+strconv.Itoa(n)+">1" {
					x.Fail("priority %d is encoded as %q, %v", n, b, err)
				}
				if c.WantSample() {
					c.Sample("%d %q %s", n, b, p)
				}
				for _, before := range []syslog5424.Priority{0, 255} {
					q := before
					if err := q.Unmarshal5424(b); err != nil || q != p {
						x.Fail("priority %d, encoded as %q, is decoded as %d, %v", n, b, q, err)
					}
				}
				if f, s := p.Facility(), p.Severity(); f|s != p || int(f) != n/8*8 || int(s) != n%8 {
					x.Fail("priority %d has facility %d and severity %d", n, f, s)
				}
				text := p.String()
				for _, f := range facilities {
					if f.n == n/8 {
						if valid[text] != n || text == "" {
							x.Fail("priority %d is written %q", n, text)
						}
						var q syslog5424.Priority
						if err := q.Set(text); err != nil || q != p {
							x.Fail("priority %d is written %q and read back as %d, %v", n, text, q, err)
						}
						return
					}
				}
				if _, ok := valid[text]; ok {
					x.Fail("priority %d, of an unnamed facility, is written %q", n, text)
				}
			})
		}}, mc.Unit{Name: "names", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				f, s := x.Choose(len(facilities)), x.Choose(8)
				name := facilities[f].name + "." + severities[s]
				setText(x, name, valid)
				if constants[facilities[f].name]|sevConstants[s] != syslog5424.Priority(valid[name]) {
					x.Fail("the constants of %s make %d", name, constants[facilities[f].name]|sevConstants[s])
				}
			})
		}})
		for f := 0; f < 4; f++ {
			f := f
			l = append(l, mc.Unit{Name: fmt.Sprintf("name-edits-%d", f), Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					q := (len(facilities) + 3) / 4
					name := facilities[f*q+x.Choose(q)].name + "." + severities[x.Choose(8)]
					i := x.Choose(len(name) + 1)
					k := x.Choose(3)
					bs := []byte{'a', 'e', 'r', '.', ' ', 'E', '0', '1', '8', 0, 0xff, '-'}
					switch k {
					case 0:
						if i < len(name) {
							name = name[:i] + name[i+1:]
						}
					case 1:
						name = name[:i] + string([]byte{bs[x.Choose(len(bs))]}) + name[i:]
					case 2:
						if i < len(name) {
							name = name[:i] + string([]byte{bs[x.Choose(len(bs))]}) + name[i+1:]
						}
					}
					setText(x, name, valid)
				})
			}})
		}
		l = append(l, mc.Unit{Name: "name-parts", Run: func(c *mc.C) {
			parts := []string{"", "-", ".", "kern", "user", "local7", "local8", "emerg", "err", "error", "debug", "KERN", "Err", " err", "err ", "0", "7", "none", "*", "panic", "warn"}
			c.Enumerate(func(x *mc.X) {
				s := ""
				for i, n := 0, x.Choose(4); i < n; i++ {
					if i > 0 {
						s += "."
					}
					s += pick(x, parts)
				}
				setText(x, s, valid)
			})
		}})
		alphabet := []string{"<", ">", "0", "1", "2", "5", "9", "a"}
		n := 6
		if deep {
			n = 7
		}
		for i := range alphabet {
			i := i
			l = append(l, mc.Unit{Name: fmt.Sprintf("header-%d", i), Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) { headerText(x, alphabet[i]+str(x, alphabet, 0, n)) })
			}})
		}
		l = append(l, mc.Unit{Name: "header-digits", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				s := "<"
				for i, n := 0, x.Choose(5); i < n; i++ {
					s += string([]byte{'0' + byte(x.Choose(10))})
				}
				headerText(x, s+">"+pick(x, []string{"1", "", "2", "0", "11", "1 "}))
			})
		}}, mc.Unit{Name: "header-edits", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				s := "<" + strconv.Itoa(x.Choose(256)) + ">1"
				i := x.Choose(len(s))
				if x.Choose(2) == 0 {
					headerText(x, s[:i]+string([]byte{byte(x.Choose(256))})+s[i+1:])
				} else {
					headerText(x, s[:i]+s[i+1:])
				}
			})
		}})
		return
	},
}
