package main

import (
	"strings"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/ref"
)

var c12 = &mc.Property{
	ID: "C12",
	Bounds: func(deep bool) string {
		return "every path of the RFC 5424 grammar automaton with one part enumerated at a time (priorities 0-191, 3159 timestamps, header fields of every printable character pair and every length, SD names, values of up to 5 (thorough 6) special tokens, up to 3 elements of 11 shapes, time quality parameter sequences of up to 4, texts of up to 5 (thorough 6) special tokens) and all header combinations of 5 values; all byte pairs in values and texts; texts, values and sequences of elements of every size around the powers of 2 and 10 up to 70000 bytes (thorough 1 MiB), up to 1100 (thorough 70000) elements and parameters; all pairs of over 160 (thorough 300) messages that differ in one or two parts, decoded one after the other; all fractions of a second of up to 6 digits, seconds of a day, days of 220 years (thorough of all) and first and last ones of all years, and offsets at 8 instants; rejection of every proper prefix before the structured data and of every other first byte of the structured data"
	},
	Assume: []string{"the reference grammar and decoder in /verif/ref are right", "structured data names and values within the length limits of the RFC"},
	Units: func(deep bool) (l []mc.Unit) {
		for _, g := range grammar(deep) {
			g := g
			l = append(l, mc.Unit{Name: g.name, Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					m := g.gen(x)
					s := m.String()
					self(m, s)
					decodeOne(c, x, m, s)
				})
			}})
		}
		l = append(l, instantUnits(deep, decodeStamp)...)
		l = append(l, mc.Unit{Name: "pairs", Run: func(c *mc.C) {
			all := variants(deep)
			var wires []string
			for _, m := range all {
				s := m.String()
				self(m, s)
				wires = append(wires, s)
			}
			c.Enumerate(func(x *mc.X) {
				i, j := x.Choose(len(all)), x.Choose(len(all))
				first, _, err := syslog5424.Parse([]byte(wires[i]), nil, true)
				if err != nil {
					x.Fail("the valid message %q is refused: %v", wires[i], err)
				}
				late := x.Choose(2) == 1 // the first message is looked at after the second one
				if !late {
					if err := sameFields(first, all[i], wires[i]); err != nil {
						x.Fail("message %q: %v", wires[i], err)
					}
				}
				second, _, err := syslog5424.Parse([]byte(wires[j]), nil, true)
				if err != nil {
					x.Fail("the valid message %q is refused after %q: %v", wires[j], wires[i], err)
				}
				if err := sameFields(second, all[j], wires[j]); err != nil {
					x.Fail("message %q after %q: %v", wires[j], wires[i], err)
				}
				if late {
					if err := sameFields(first, all[i], wires[i]); err != nil {
						x.Fail("message %q after %q was decoded: %v", wires[i], wires[j], err)
					}
				}
			})
		}}, mc.Unit{Name: "rejected-prefixes", Run: func(c *mc.C) {
			heads := []*ref.Msg{baseline(), {Pri: 0, TS: "-", Host: "-", App: "-", Proc: "-", MsgID: "-"}, {Pri: 12, TS: "1970-01-01T01:00:00Z", Host: "[a", App: "]", Proc: "\"", MsgID: "="}}
			c.Enumerate(func(x *mc.X) {
				s := heads[x.Choose(len(heads))].String()
				s = s[:len(s)-1] // without the structured data
				s = s[:x.Choose(len(s)+1)]
				eof := x.Choose(2) == 1
				x.Note("input %q", s)
				if _, _, err := syslog5424.Parse([]byte(s), nil, eof); err == nil {
					x.Fail("%q ends before the structured data and is accepted", s)
				}
			})
		}}, mc.Unit{Name: "rejected-sd", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				b := byte(x.Choose(256))
				tail := pick(x, []string{"", " ", " text", "a b", "[a]", "] a", "\"] a"})
				if b == '-' || b == '[' {
					return
				}
				s := baseline().String()
				s = s[:len(s)-1] + string([]byte{b}) + tail
				x.Note("input %q", s)
				if _, _, err := syslog5424.Parse([]byte(s), nil, x.Choose(2) == 1); err == nil {
					x.Fail("%q has no structured data and is accepted", s)
				}
			})
		}})
		return
	},
}

// self checks the reference against itself.
func self(m *ref.Msg, s string) {
	r, err := ref.Parse([]byte(s), 191)
	if err != nil || r.String() != s || r.Text != m.Text || len(r.SD) != len(m.SD) || r.HasText != m.HasText {
		mc.Broken("the generator made an invalid message %q: %v", s, err)
	}
	for i := range r.SD {
		if r.SD[i].String() != m.SD[i].String() || len(r.SD[i].Params) != len(m.SD[i].Params) {
			mc.Broken("the generator made an invalid message %q", s)
		}
		for j, p := range r.SD[i].Params {
			if p != m.SD[i].Params[j] {
				mc.Broken("the generator made an invalid message %q", s)
			}
		}
	}
}

func decodeOne(c *mc.C, x *mc.X, m *ref.Msg, s string) {
	x.Note("input %q", s)
	if c.WantSample() {
		c.Sample("%q", s)
	}
	for _, eof := range []bool{true, false} {
		in := []byte(s)
		got, rest, err := syslog5424.Parse(in, nil, eof)
		if err != nil {
			x.Fail("the valid message %q is refused: %v", s, err)
		}
		if len(rest) != 0 {
			x.Fail("decoding %q leaves %q", s, rest)
		}
		if err := sameFields(got, m, s); err != nil {
			x.Fail("message %q: %v", s, err)
		}
		if string(in) != s {
			x.Fail("decoding %q changed the input to %q", s, in)
		}
		if strings.IndexByte(s, '\n') < 0 && eof { // and as a frame
			for _, t := range []syslog5424.Transport{syslog5424.TransportLFEnded, syslog5424.TransportRFC5425} {
				got, rest, err := syslog5424.Parse(t.Encode([]byte(s)), t, eof)
				if err != nil || len(rest) != 0 {
					x.Fail("the valid message %q framed by %s is refused: %v, rest %q", s, t, err, rest)
				}
				if err := sameFields(got, m, s); err != nil {
					x.Fail("message %q framed by %s: %v", s, t, err)
				}
			}
		}
	}
}
