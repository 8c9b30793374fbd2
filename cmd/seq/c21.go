package main

import (
	"fmt"
	"math"

	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/mc"
	"verif/ref"
)

func accuracies() (l []int) {
	l = []int{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, 1 << 31, 60000000}
	for i := -300; i <= 300; i++ {
		l = append(l, i)
	}
	for p := 1000; p > 0 && p < math.MaxInt64/10; p *= 10 {
		l = append(l, p-1, p, p+1, -p-1, -p, -p+1)
	}
	for i := uint(9); i < 63; i++ {
		l = append(l, 1<<i-1, 1<<i, -1<<i)
	}
	return
}

func syslog5424Register(name string) { sdata.Register(sdata.GenericSD(bareSD(name)).SDID()) }

var c21 = &mc.Property{
	ID: "C21",
	Bounds: func(deep bool) string {
		return "all flag combinations x absent or one of 900 accuracies (all from -300 to 300, powers of two and ten and their neighbours); all sequences of up to 4 (thorough 5) parameters out of 31 valid and invalid ones, repeated names excepted; every single-byte edit of the valid encodings"
	},
	Assume: []string{"the reference reader in /verif/ref is right", "repeated parameters, signs and leading zeros of numbers and repeated spaces are unspecified"},
	Units: func(deep bool) (l []mc.Unit) {
		accs := accuracies()
		l = append(l, mc.Unit{Name: "values", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				tq := timequality.TimeQuality{TzKnown: x.Choose(2) == 1, IsSynced: x.Choose(2) == 1}
				var acc *int64
				if x.Choose(2) == 1 {
					a := accs[x.Choose(len(accs))]
					tq.SyncAccuracy = &a
					a64 := int64(a)
					acc = &a64
				}
				ok := (tq.TzKnown || !tq.IsSynced) && (tq.IsSynced || acc == nil)
				b, err := tq.Marshal5424()
				if tq.IsValid() != ok {
					x.Fail("IsValid of %+v is %v", tq, tq.IsValid())
				}
				if !ok {
					if err == nil || len(b) != 0 {
						x.Fail("the inconsistent %+v is encoded as %q, %v", tq, b, err)
					}
					return
				}
				if err != nil {
					x.Fail("%+v: %v", tq, err)
				}
				if c.WantSample() {
					c.Sample("%s", b)
				}
				e, err := ref.ParseElems(b)
				if err != nil || len(e) != 1 {
					x.Fail("%+v is encoded as %q: %v", tq, b, err)
				}
				m, mok := ref.TimeQuality(e[0])
				if !mok || !m.Same(ref.TQ{Tz: tq.TzKnown, Sync: tq.IsSynced, Acc: acc}) {
					x.Fail("%+v is encoded as %q", tq, b)
				}
				foundTQ(x, string(b), &m)
			})
		}})
		params := append([][]string{{"syncAccuracy", ""}, {"syncAccuracy", "9"}, {"syncAccuracy", "10"}, {"syncAccuracy", "1.5"}, {"syncAccuracy", "1e3"}, {"syncAccuracy", "0x10"}, {"syncAccuracy", " 1"}, {"syncAccuracy", "1 "},
			{"syncAccuracy", "99999999999999999999999"}, {"tzKnown", ""}, {"tzKnown", "true"}, {"tzKnown", "01"}, {"tzKnown", "10"}, {"isSynced", "2"}, {"isSynced", "1 "}, {"TzKnown", "1"}, {"isSynce", "1"}}, tqParams...)
		n := 3
		if deep {
			n = 4
		}
		for i := range params {
			i := i
			l = append(l, mc.Unit{Name: fmt.Sprintf("params-%s=%s", params[i][0], params[i][1]), Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					e := ref.Elem{ID: "timeQuality", Params: []ref.Param{param(params[i][0], params[i][1])}}
					used := map[string]bool{params[i][0]: true}
					for j, k := 0, x.Choose(n+1); j < k; j++ {
						p := params[x.Choose(len(params))]
						if used[p[0]] {
							return
						}
						used[p[0]] = true
						e.Params = append(e.Params, param(p[0], p[1]))
					}
					if m, ok := ref.TimeQuality(e); ok {
						foundTQ(x, e.String(), &m)
					} else {
						foundTQ(x, e.String(), nil)
					}
				})
			}})
		}
		valid := []string{`[timeQuality]`, `[timeQuality tzKnown="1"]`, `[timeQuality isSynced="1" tzKnown="1"]`, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="100"]`, `[timeQuality tzKnown="0" isSynced="0"]`}
		l = append(l, mc.Unit{Name: "edits", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				s := pick(x, valid)
				i := x.Choose(len(s) + 1)
				bs := []string{"", "a", "1", "0", "2", " ", `"`, `\`, "]", "[", "=", "\x00", "-"}
				b := pick(x, bs)
				if x.Choose(2) == 0 {
					s = s[:i] + b + s[i:]
				} else if i < len(s) {
					s = s[:i] + b + s[i+1:]
				}
				want, undefined := meaning(s)
				if !undefined {
					foundTQ(x, s, want)
				} else {
					sdata.Parse([]byte(s))
				}
			})
		}})
		return
	},
}

// meaning tells what an arbitrary string is as a time quality (nil: refused) and whether that is unspecified.
func meaning(s string) (m *ref.TQ, undefined bool) {
	l, err := ref.ParseElems([]byte(s))
	if err != nil {
		// repeated or trailing spaces, and other forms outside the grammar, must at least not be misread: unspecified
		return nil, true
	}
	if len(l) != 1 {
		return nil, true
	}
	seen := map[string]bool{}
	for _, p := range l[0].Params {
		if seen[p.Name] {
			return nil, true
		}
		seen[p.Name] = true
		if p.Name == "syncAccuracy" && len(p.Val) > 1 && (p.Val[0] == '0' || p.Val[0] == '+' || p.Val[0] == '-' && (p.Val[1] == '0')) {
			return nil, true
		}
		if p.Raw != p.Val {
			return nil, true
		}
	}
	if t, ok := ref.TimeQuality(l[0]); ok {
		return &t, false
	}
	return nil, false
}

func foundTQ(x *mc.X, s string, want *ref.TQ) {
	x.Note("element %s", s)
	for i, f := range []func([]byte) (sdata.StructuredData, bool){timequality.TQ.Found, sdata.Parse} {
		in := []byte(s)
		sd, ok := f(in)
		if string(in) != s {
			x.Fail("decoding %q changed it to %q", s, in)
		}
		tq, isTQ := sd.(timequality.TimeQuality)
		if want == nil {
			if ok && isTQ {
				x.Fail("%q is accepted as %+v", s, tq)
			}
			continue
		}
		if !ok || !isTQ {
			x.Fail("%q is refused (%d)", s, i)
		}
		got := ref.TQ{Tz: tq.TzKnown, Sync: tq.IsSynced}
		if tq.SyncAccuracy != nil {
			a := int64(*tq.SyncAccuracy)
			got.Acc = &a
		}
		if !got.Same(*want) {
			x.Fail("%q is decoded as %+v", s, tq)
		}
	}
}
