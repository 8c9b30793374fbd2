package main

import (
	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/ref"
)

// bareSD is a structured data type without parameters, registered through its generic identifier.
type bareSD string

func (b bareSD) String() string { return string(b) }
func (b bareSD) IsIANA() bool   { return false }
func (b bareSD) GetPEN() uint64 { return 32473 }

var c15 = &mc.Property{
	ID: "C15",
	Bounds: func(deep bool) string {
		return "every message of the grammar enumeration of C12 (one part at a time, header combinations, up to 3 elements of 11 shapes, values and texts of up to 5, thorough 6, special tokens, texts, values and sequences of elements of every size around the powers of 2 and 10 up to 70000 bytes, thorough 1 MiB), relayed twice; all pairs of over 160 (thorough 300) messages that differ in one or two parts, one after the other; all fractions of a second of up to 6 digits, seconds of a day, days of 220 years (thorough of all) and first and last ones of all years, and offsets at 8 instants"
	},
	Assume: []string{"the reference grammar and decoder in /verif/ref are right", "time quality elements do not repeat a parameter", "no timestamp denotes the first instant of the year 1 in UTC, which is no time in Go"},
	Units: func(deep bool) (l []mc.Unit) {
		for _, g := range grammar(deep) {
			g := g
			l = append(l, mc.Unit{Name: g.name, Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) { relay(c, x, g.gen(x)) })
			}})
		}
		l = append(l, instantUnits(deep, relayStamp)...)
		l = append(l, mc.Unit{Name: "pairs", Run: func(c *mc.C) {
			all := variants(deep)
			c.Enumerate(func(x *mc.X) {
				relay(c, x, all[x.Choose(len(all))])
				relay(c, x, all[x.Choose(len(all))])
			})
		}}, mc.Unit{Name: "registered-generic", Run: func(c *mc.C) {
			syslog5424Register("bare@32473")
			ids := []string{"bare@32473", "bare@3247", "bare@324733", "other"}
			c.Enumerate(func(x *mc.X) {
				m := baseline()
				for i, n := 0, 1+x.Choose(3); i < n; i++ {
					e := ref.Elem{ID: pick(x, ids)}
					if x.Choose(2) == 1 {
						e.Params = []ref.Param{param("k", "v")}
					}
					m.SD = append(m.SD, e)
				}
				text(x, m, textTokensSmall, 1)
				relay(c, x, m)
			})
		}})
		return
	},
}

func relay(c *mc.C, x *mc.X, m *ref.Msg) {
	s := m.String()
	self(m, s)
	x.Note("received %q", s)
	got, _, err := syslog5424.Parse([]byte(s), nil, true)
	if err != nil {
		x.Fail("the valid message %q is refused: %v", s, err)
	}
	w := got.Writable()
	b, err := w.Marshal5424()
	if err != nil {
		x.Fail("message %q cannot be relayed: %v", s, err)
	}
	out := string(b)
	x.Note("relayed  %q", out)
	if c.WantSample() {
		c.Sample("%q relayed as %q", s, out)
	}
	if w.String() != out {
		x.Fail("String %q and Marshal5424 %q of the relayed message differ", w.String(), out)
	}
	r, err := ref.Parse(b, 191)
	if err != nil {
		x.Fail("message %q is relayed as %q, which is not valid: %v", s, out, err)
	}
	same := r.Pri == m.Pri && r.Host == m.Host && r.App == m.App && r.Proc == m.Proc && r.MsgID == m.MsgID && r.Text == m.Text && len(r.SD) == len(m.SD) && (r.TS == "-") == (m.TS == "-")
	if same && m.TS != "-" {
		a, _ := ref.Instant(m.TS)
		b, _ := ref.Instant(r.TS)
		same = a == b
	}
	for i := 0; same && i < len(m.SD); i++ {
		same = ref.SameElem(r.SD[i], m.SD[i])
	}
	if !same {
		x.Fail("message %q is relayed as %q, which does not mean the same", s, out)
	}
	again, _, err := syslog5424.Parse([]byte(out), nil, true)
	if err != nil {
		x.Fail("the relayed message %q is refused: %v", out, err)
	}
	if b, err = again.Writable().Marshal5424(); err != nil || string(b) != out {
		x.Fail("relaying %q again gives %q (%v)", out, b, err)
	}
}
