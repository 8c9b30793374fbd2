package main

import (
	"fmt"
	"strings"

	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/mc"
	"verif/ref"
	"verif/vs"
)

// typed is a registered type of structured data: it recognises the elements of one identifier.
type typed struct {
	name string // of the registration
	id   string // of the elements
	who  int    // tells registrations apart

	match func(s string) bool // recognises elements otherwise than by their identifier
}

// found is an element recognised by a typed.
type found struct {
	by  *typed
	raw string
}

func (t *typed) String() string               { return t.name }
func (t *typed) IsIANA() bool                 { return false }
func (t *typed) GetPEN() uint64               { return 32473 }
func (t *typed) MarshalText() ([]byte, error) { return []byte(t.id), nil }
func (t *typed) Found(b []byte) (sdata.StructuredData, bool) {
	s := string(b)
	if t.match != nil {
		if t.match(s) {
			return found{t, s}, true
		}
		return nil, false
	}
	if t.id != "" && (s == "["+t.id+"]" || strings.HasPrefix(s, "["+t.id+" ") && strings.HasSuffix(s, "]")) {
		return found{t, s}, true
	}
	return nil, false
}
func (f found) SDID() sdata.SDID             { return f.by }
func (f found) Marshal5424() ([]byte, error) { return []byte(f.raw), nil }

var serials int

// unique makes a name no other execution uses.
func unique(s string) string {
	serials++
	return fmt.Sprintf("%s%d@32473", s, serials)
}

// unknownAs tells what is wrong with sd as the unknown element e.
func unknownAs(sd sdata.StructuredData, ok bool, e ref.Elem) string {
	if !ok || sd == nil {
		return fmt.Sprintf("%s is refused", e)
	}
	if f, is := sd.(found); is {
		return fmt.Sprintf("%s is recognised by the type %s", e, f.by.name)
	}
	if _, is := sd.(timequality.TimeQuality); is {
		return fmt.Sprintf("%s is taken for a time quality", e)
	}
	b, err := sd.Marshal5424()
	if err != nil || string(b) != e.String() {
		return fmt.Sprintf("%s is encoded again as %q, %v", e, b, err)
	}
	return ""
}

// as tells what is wrong with sd as the element raw of type t.
func as(sd sdata.StructuredData, ok bool, raw string, t *typed) string {
	f, is := sd.(found)
	if !ok || !is || f.by != t || f.raw != raw {
		return fmt.Sprintf("%q is decoded as %#v (%v) instead of the type %s (%d)", raw, sd, ok, t.name, t.who)
	}
	return ""
}

var lookNames = []string{"a", "x@1", "x@10", "timeQuality", "timeQualit", "timeQualityX", "timeQuality@1", "TimeQuality", "!", strings.Repeat("n", 32), "\\[", "'"}
var lookParams = []string{`tzKnown="1"`, `isSynced="1"`, `syncAccuracy="5"`, `tzKnown="0"`, `k="v"`, `k=""`, `k="\"\\\]"`, `k="[ = "`, `other="1"`}

func elemOf(ch chooser, max int) ref.Elem {
	s := "[" + lookNames[ch(len(lookNames))]
	for i := 0; i < max; i++ {
		k := ch(len(lookParams) + 1)
		if k == 0 {
			break
		}
		s += " " + lookParams[k-1]
	}
	l, err := ref.ParseElems([]byte(s + "]"))
	if err != nil || len(l) != 1 {
		mc.Broken("%s]: %v", s, err)
	}
	return l[0]
}

// dup tells whether a parameter of a time quality is repeated.
func dup(e ref.Elem) bool {
	seen := map[string]bool{}
	for _, p := range e.Params {
		if seen[p.Name] {
			return true
		}
		seen[p.Name] = true
	}
	return false
}

type lookup struct {
	bad  string
	regs []*typed // of the name
	seen []*typed // what decoding gave, in the order of each goroutine
}

func (l *lookup) fail(s string) {
	if s != "" && l.bad == "" {
		l.bad = s
	}
}

func init() {
	reg(&mc.Property{ID: "C20", Assume: append([]string{"the registered types recognise exactly the elements of their identifier", "a type's Found does not use the registry"}, trust...),
		Bounds: func(deep bool) string {
			n := 3
			if deep {
				n = 4
			}
			return fmt.Sprintf("all elements of 12 identifiers and up to %d of 9 parameters, with and without a registered type for the identifier, each looked up 8 times and in lists of a message; registrations of the same name in all orders, singly and in groups; generic types of identifiers alike; 2 types of 4 names that recognise elements in 7 ways and 3 types of 3 names in 4 ways (by identifiers that may be names of other types, by parameters); all schedules of 2 and 3 goroutines that register the same and other names and decode; all byte strings of up to 6 of 9 tokens; elements of identifiers and parameter names of each length up to 32, with numbers of parameters around the powers of 2 and 10 up to %d and values of lengths around them up to %d, known and unknown; up to 300 (thorough 1030) registered types; as many decodings before the registration", n, manyParams(deep), 1<<17)
		},
		Units: func(deep bool) (u []mc.Unit) {
			n := 3
			if deep {
				n = 4
			}
			u = append(u, mc.Unit{Name: "elements", Run: func(c *mc.C) {
				var types = map[string]*typed{}
				c.Enumerate(func(x *mc.X) {
					e := elemOf(x.Choose, n)
					if x.Choose(2) == 1 && !strings.HasPrefix(e.ID, "timeQuality") { // under a registered identifier
						if types[e.ID] == nil {
							t := &typed{name: "type of " + e.ID, id: "reg" + e.ID}
							types[e.ID] = t
							sdata.Register(t)
						}
						e.ID = "reg" + e.ID
						if len(e.ID) > 32 {
							return
						}
						for i := 0; i < 8; i++ {
							sd, ok := sdata.Parse([]byte(e.String()))
							if msg := as(sd, ok, e.String(), types[e.ID[3:]]); msg != "" {
								x.Fail("%s", msg)
							}
						}
						return
					}
					if e.ID == "timeQuality" && dup(e) {
						return
					}
					if c.WantSample() {
						c.Sample("%s", e)
					}
					q, is := ref.TimeQuality(e)
					for i := 0; i < 8; i++ {
						sd, ok := sdata.Parse([]byte(e.String()))
						if !is {
							if msg := unknownAs(sd, ok, e); msg != "" {
								x.Fail("%s", msg)
							}
							continue
						}
						t, isTQ := sd.(timequality.TimeQuality)
						if !ok || !isTQ {
							x.Fail("%s is not decoded as a time quality but as %#v (%v)", e, sd, ok)
						}
						g := ref.TQ{Tz: t.TzKnown, Sync: t.IsSynced}
						if t.SyncAccuracy != nil {
							v := int64(*t.SyncAccuracy)
							g.Acc = &v
						}
						if !g.Same(q) {
							x.Fail("%s is decoded as %+v", e, t)
						}
					}
				})
			}}, mc.Unit{Name: "first-registration", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					name, other := unique("n"), unique("o")
					alike := x.Choose(5)
					switch alike { // names alike
					case 1:
						other = strings.Replace(name, "@32473", "@32474", 1)
					case 2:
						other = strings.Replace(name, "@32473", "", 1)
					case 3:
						other = strings.ToUpper(name)
					case 4:
						other = name + "0"
					}
					var regs []*typed
					taken := map[string]*typed{}
					count, groups := 4, 8
					if alike > 0 {
						count, groups = 3, 2
					}
					for i := 0; i < count; i++ {
						t := &typed{name: []string{name, other}[x.Choose(2)], id: unique("id"), who: i}
						regs = append(regs, t)
					}
					group := 3 * x.Choose(groups) % 8 // which of them are registered together
					for i := 0; i < len(regs); i++ {
						l := []sdata.SDID{regs[i]}
						for i+1 < len(regs) && group&(1<<uint(i)) != 0 {
							i++
							l = append(l, regs[i])
						}
						if len(l) == 1 && x.Choose(2) == 0 {
							if got := sdata.Register(l[0]); got != l[0] && got != sdata.SDID(taken[l[0].String()]) {
								x.Fail("Register returns %v", got)
							}
						} else {
							sdata.RegisterGroup(l...)
						}
						for _, s := range l {
							if t := s.(*typed); taken[t.name] == nil {
								taken[t.name] = t
							}
						}
						for k, t := range regs {
							raw := "[" + t.id + ` a="b"]`
							for j := 0; j < 4; j++ {
								sd, ok := sdata.Parse([]byte(raw))
								msg := ""
								if k <= i && taken[t.name] == t {
									msg = as(sd, ok, raw, t)
								} else {
									e, _ := ref.ParseElems([]byte(raw))
									msg = unknownAs(sd, ok, e[0])
								}
								if msg != "" {
									x.Fail("after %d registrations: %s", i+1, msg)
								}
							}
						}
					}
					for _, t := range regs {
						t.id = "" // recognises nothing any more
					}
				})
			}})
			for _, k := range []int{2, 3} {
				k := k
				u = append(u, mc.Unit{Name: fmt.Sprintf("recognition-%d", k), Run: func(c *mc.C) {
					c.Enumerate(func(x *mc.X) { recognition(x, k) })
				}})
			}
			for i := 0; i < 2; i++ {
				i := i
				u = append(u, mc.Unit{Name: fmt.Sprintf("bytes-%d", i), Run: func(c *mc.C) {
					c.Enumerate(func(x *mc.X) {
						s := ""
						if i == 0 {
							s = chooser(x.Choose).str([]string{"[", "]", `"`, `\`, "=", " ", "a", "timeQuality", "tzKnown"}, 5)
						} else {
							s = "[" + chooser(x.Choose).str([]string{"]", `"`, `\`, "=", " ", "a", "timeQuality", "tzKnown", `="1"`}, 5) + "]"
						}
						b := []byte(s)
						sd, ok := sdata.Parse(b)
						if string(b) != s {
							x.Fail("decoding changed the input %q to %q", s, b)
						}
						if ok != (sd != nil) {
							x.Fail("%q is decoded as %#v, %v", s, sd, ok)
						}
						l, err := ref.ParseElems(b)
						if err == nil && len(l) == 1 {
							if !ok {
								x.Fail("the element %q is refused", s)
							}
							if l[0].ID == "timeQuality" && dup(l[0]) {
								return
							}
							out, err := sd.Marshal5424()
							if o, err2 := ref.ParseElems(out); err != nil || err2 != nil || len(o) != 1 || !ref.SameElem(o[0], l[0]) {
								x.Fail("the element %q is encoded again as %q, %v", s, out, err)
							}
						} else if ok {
							if _, err := sd.Marshal5424(); err != nil {
								x.Fail("%q is accepted and cannot be encoded: %v", s, err)
							}
						}
					})
				}})
			}
			u = append(u, mc.Unit{Name: "all-bytes", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					b := []byte{byte(x.Choose(256)), byte(x.Choose(256))}
					pre := []string{"", "[", "[a", "[a b=\"", "[timeQuality "}[x.Choose(5)]
					post := []string{"", "]", "\"]"}[x.Choose(3)]
					if sd, ok := sdata.Parse([]byte(pre + string(b) + post)); ok {
						sd.Marshal5424()
					}
				})
			}})

			u = append(u, scaleLookups(deep)...)

			// schedules
			ops := []string{"first", "second", "group", "other", "decode", "decode2", "unknown", "quality"}
			sched := func(pre int, gs ...[]int) mc.Unit {
				var l *lookup
				var names []string
				for _, g := range gs {
					s := ""
					for _, o := range g {
						s += "+" + ops[o]
					}
					names = append(names, s[1:])
				}
				return unit(strings.Join(names, "|"), vs.Cfg{Preempt: pre, MaxSteps: 20000}, func() {
					l = &lookup{}
					v := l
					name := unique("name")
					id := unique("id")
					a := &typed{name: name, id: id, who: 1}
					b := &typed{name: name, id: id, who: 2}
					g := &typed{name: name, id: id, who: 3}
					o := &typed{name: unique("other"), id: unique("oid"), who: 4}
					v.regs = []*typed{a, b, g, o}
					raw := "[" + id + ` k="v"]`
					done := make([]bool, len(gs))
					bad := make([]string, len(gs))
					seen := make([][]*typed, len(gs))
					run := func(i int) {
						fail := func(s string) {
							if bad[i] == "" {
								bad[i] = s
							}
						}
						did := map[int]bool{}
						for _, op := range gs[i] {
							did[op] = true
							switch op {
							case 0:
								sdata.Register(a)
							case 1:
								sdata.Register(b)
							case 2:
								sdata.RegisterGroup(g, o)
							case 3:
								sdata.Register(o)
							case 4, 5:
								sd, ok := sdata.Parse([]byte(raw))
								if f, is := sd.(found); is {
									if f.raw != raw || f.by.name != name {
										fail("the element is decoded by another type")
									}
									seen[i] = append(seen[i], f.by)
								} else {
									if !ok || did[0] || did[1] || did[2] || len(seen[i]) > 0 {
										fail("the element is not recognised by the registered type")
									}
									if bs, err := sd.Marshal5424(); err != nil || string(bs) != raw {
										fail("the unknown element is encoded differently")
									}
								}
							case 6:
								sd, ok := sdata.Parse([]byte(`[unknown@1 a="b"]`))
								if !ok {
									fail("an unknown element is refused")
								} else if bs, err := sd.Marshal5424(); err != nil || string(bs) != `[unknown@1 a="b"]` {
									fail("an unknown element is encoded differently")
								}
							case 7:
								sd, ok := sdata.Parse([]byte(`[timeQuality tzKnown="1"]`))
								if q, is := sd.(timequality.TimeQuality); !ok || !is || !q.TzKnown {
									fail("a time quality is not recognised")
								}
							}
						}
						done[i] = true
					}
					for i := range gs[1:] {
						i := i
						vs.GoH("user", func() { run(i + 1) })
					}
					run(0)
					vs.WaitIdle()
					var by *typed
					for i := range gs {
						v.fail(bad[i])
						if !done[i] {
							v.fail("a call does not return")
						}
						for _, t := range seen[i] {
							if by != nil && by != t {
								v.fail("the element is decoded by two types of the same name")
							}
							by = t
						}
					}
					anyReg := false
					for _, g := range gs {
						for _, op := range g {
							anyReg = anyReg || op < 3
						}
					}
					if v.bad == "" {
						for i := 0; i < 3; i++ {
							sd, _ := sdata.Parse([]byte(raw))
							f, is := sd.(found)
							if is != anyReg {
								v.fail("the element is not decoded by the type registered for it")
							} else if is {
								if by != nil && f.by != by {
									v.fail("the element is decoded by two types of the same name")
								}
								by = f.by
							}
						}
					}
					for _, t := range v.regs {
						t.id = ""
					}
				}, func(o *vs.Outcome) string {
					if m := settled(o); m != "" {
						return m
					}
					return l.bad
				})
			}
			k := len(ops)
			for i := 0; i < k; i++ {
				for j := i; j < k; j++ {
					u = append(u, sched(-1, []int{i, 4}, []int{j, 5}), sched(-1, []int{4, i}, []int{5, j}))
					for m := j; m < k; m++ {
						u = append(u, sched(-1, []int{i}, []int{j}, []int{m}))
						if deep {
							u = append(u, sched(2, []int{i, 4}, []int{j, 5}, []int{m, 4}))
						}
					}
				}
			}
			return
		}})
}

// recognition registers k types that recognise elements by anything and bear any name.
func recognition(x *mc.X, k int) {
	serials++
	ids := []string{fmt.Sprintf("r%d", serials), fmt.Sprintf("r%d@1", serials), fmt.Sprintf("q%d@1", serials), fmt.Sprintf("p%d", serials)}
	names, preds := len(ids), 7
	if k > 2 {
		names, preds = 3, 4
	}
	var regs, live []*typed
	taken := map[string]bool{}
	for i := 0; i < k; i++ {
		t := &typed{name: ids[x.Choose(names)], who: i}
		p := x.Choose(preds)
		switch p {
		case 0: // nothing
			t.match = func(string) bool { return false }
		case 1, 2: // one identifier
			t.match = func(s string) bool { return strings.HasPrefix(s, "["+ids[p]+" ") || s == "["+ids[p]+"]" }
		case 3: // a parameter of any identifier of these
			t.match = func(s string) bool { return strings.Contains(s, fmt.Sprintf(" k%d=", serials)) }
		case 4: // any of two
			t.match = func(s string) bool { return strings.HasPrefix(s, "["+ids[0]) }
		case 5: // without parameters
			t.match = func(s string) bool { return s == "["+ids[2]+"]" }
		case 6:
			t.match = func(s string) bool { return strings.HasPrefix(s, "["+ids[0]+" ") || s == "["+ids[0]+"]" }
		}
		regs = append(regs, t)
		sdata.Register(t)
		if !taken[t.name] {
			taken[t.name] = true
			live = append(live, t)
		}
		x.Note("registered: name %s, recognises by %d", t.name, p)
	}
	for _, id := range ids {
		for _, params := range []string{"", ` a="b"`, fmt.Sprintf(` k%d="v"`, serials)} {
			raw := "[" + id + params + "]"
			var by []*typed
			for _, t := range live {
				if t.match(raw) {
					by = append(by, t)
				}
			}
			for i := 0; i < 3; i++ {
				sd, ok := sdata.Parse([]byte(raw))
				msg := ""
				switch len(by) {
				case 0:
					e, _ := ref.ParseElems([]byte(raw))
					msg = unknownAs(sd, ok, e[0])
				case 1:
					msg = as(sd, ok, raw, by[0])
				default:
					if f, is := sd.(found); !is || f.raw != raw {
						msg = fmt.Sprintf("%s, which %d types recognise, is decoded as %#v", raw, len(by), sd)
					}
				}
				if msg != "" {
					x.Fail("%s", msg)
				}
			}
		}
	}
	for _, t := range regs {
		t.match = func(string) bool { return false }
	}
}

// light is the identifier of a generic structured data.
type light string

func (l light) String() string { return string(l) }
func (l light) IsIANA() bool   { return false }
func (l light) GetPEN() uint64 { return 1 }

func manyParams(deep bool) int {
	if deep {
		return 5000
	}
	return 300
}

// scaleLookups: large elements, many types, many decodings before the registration.
func scaleLookups(deep bool) []mc.Unit {
	counts := around(0, manyParams(deep), 1, 1)
	values := around(0, 1<<17, 1, 1)
	checkN := func(x *mc.X, what, raw string, t *typed, times int) {
		for i := 0; i < times; i++ {
			b := []byte(raw)
			sd, ok := sdata.Parse(b)
			msg := ""
			if t != nil {
				msg = as(sd, ok, raw, t)
			} else {
				l, err := ref.ParseElems([]byte(raw))
				if err != nil || len(l) != 1 {
					mc.Broken("%s: %v", clipped(raw), err)
				}
				msg = unknownAs(sd, ok, l[0])
			}
			if string(b) != raw {
				msg = "decoding changed the input"
			}
			if msg != "" {
				x.Fail("%s: %s", what, clipped(msg))
			}
		}
	}
	check := func(x *mc.X, what, raw string, t *typed) { checkN(x, what, raw, t, 3) }
	var big *typed
	return []mc.Unit{
		{Name: "large-elements", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				if big == nil {
					big = &typed{name: unique("big"), id: "big@1"}
					sdata.Register(big)
				}
				id := "b@1"
				var t *typed
				if x.Choose(2) == 1 {
					id, t = "big@1", big
				}
				var s strings.Builder
				what := ""
				switch x.Choose(3) {
				case 0:
					n := counts[x.Choose(len(counts))]
					names := x.Choose(3)
					what = fmt.Sprintf("%d parameters", n)
					s.WriteString("[" + id)
					for i := 0; i < n; i++ {
						name := "k"
						if names > 0 {
							name = fmt.Sprintf("k%d", i)
						}
						if names == 2 {
							name += strings.Repeat("n", 32-len(name))
						}
						fmt.Fprintf(&s, ` %s="%s"`, name, []string{"v", "", `\"`, "\u00e9", "a longer value"}[i%5])
					}
				case 1:
					n := values[x.Choose(len(values))]
					what = fmt.Sprintf("a value of %d bytes", n)
					k := x.Choose(4)
					v := strings.Repeat([]string{"v", `\"`, "\u00e9", "\x80"}[k], n)
					if k == 2 {
						v = v[:n-n%2]
					} else if k == 1 {
						v = v[:n-n%2]
					}
					if x.Choose(2) == 1 && len(v) > 1 {
						v = v[:len(v)/2-len(v)/2%2] + "\\]" + v[len(v)/2-len(v)/2%2:]
					}
					s.WriteString("[" + id + ` k="` + v + `"`)
					if x.Choose(2) == 1 {
						s.WriteString(` after="it"`)
					}
				case 2:
					n, m := 1+x.Choose(32), 1+x.Choose(32)
					what = fmt.Sprintf("an identifier of %d and a name of %d bytes", n, m)
					t = nil
					s.WriteString("[" + strings.Repeat("z", n) + " " + strings.Repeat("y", m) + `="v"`)
				}
				s.WriteString("]")
				check(x, what, s.String(), t)
				if c.WantSample() {
					c.Sample("%s", what)
				}
			})
		}},
		{Name: "many-types", Run: func(c *mc.C) {
			counts := around(0, manyParams(false), 1, 1)
			if deep {
				counts = around(0, 1030, 1, 1)
			}
			c.Enumerate(func(x *mc.X) {
				n := counts[x.Choose(len(counts))]
				group := x.Choose(3)
				what := fmt.Sprintf("%d types", n)
				var l []*typed
				var ids []sdata.SDID
				alike := unique("t")
				for i := 0; i < n; i++ {
					id := unique("id")
					if group == 2 {
						id = fmt.Sprintf("%s-%d", alike[:len(alike)-6], i)
					}
					t := &typed{name: unique("many"), id: id, who: i}
					l, ids = append(l, t), append(ids, t)
					if group != 1 {
						sdata.Register(t)
					}
				}
				if group == 1 {
					sdata.RegisterGroup(ids...)
				}
				for _, t := range l {
					checkN(x, what, "["+t.id+` a="b"]`, t, 1)
					again := &typed{name: t.name, id: t.id, who: -1}
					sdata.Register(again)
				}
				for _, t := range l {
					checkN(x, what+", registered again", "["+t.id+"]", t, 1)
				}
				check(x, what, `[unknown@1 a="b"]`, nil)
				sd, ok := sdata.Parse([]byte(`[timeQuality tzKnown="1"]`))
				if q, is := sd.(timequality.TimeQuality); !ok || !is || !q.TzKnown {
					x.Fail("%s: a time quality is not recognised", what)
				}
				for _, t := range l {
					t.id = ""
				}
			})
		}},
		{Name: "generic-types", Run: func(c *mc.C) {
			ids := []string{"gen@1", "gen@12", "ge", "g", strings.Repeat("g", 32), "GEN@1"}
			var regs []sdata.SDID
			for _, id := range ids {
				regs = append(regs, sdata.GenericSD(light(id)).SDID())
			}
			sdata.Register(regs[0])
			sdata.RegisterGroup(regs[1:]...)
			c.Enumerate(func(x *mc.X) {
				k := x.Choose(len(ids))
				id := ids[k]
				switch x.Choose(4) {
				case 0:
					raw := "[" + id + "]"
					sd, ok := sdata.Parse([]byte(raw))
					if !ok || sd.SDID() != regs[k] {
						x.Fail("%s is decoded as %#v (%v), not by the registered type", raw, sd, ok)
					}
					if b, err := sd.Marshal5424(); err != nil || string(b) != raw {
						x.Fail("%s is encoded again as %q, %v", raw, b, err)
					}
				case 1:
					check(x, "with parameters", "["+id+[]string{` a="b"`, ` a=""`, ` a="1" b="2"`}[x.Choose(3)]+"]", nil)
				case 2:
					other := []string{id + "3", id + "=", "x" + id, id[:len(id)-1]}[x.Choose(4)]
					l, err := ref.ParseElems([]byte("[" + other + "]"))
					for _, id := range ids {
						if other == id {
							return
						}
					}
					if err == nil && len(l) == 1 {
						check(x, "another identifier", "["+other+"]", nil)
					} else if sd, ok := sdata.Parse([]byte("[" + other + "]")); ok && sd.SDID() == regs[k] {
						x.Fail("[%s] is decoded as %#v", other, sd)
					}
				case 3:
					raw := []string{"", "[", "]", "[]", "[" + id, id + "]", "(" + id + ")", "[" + id + ")", "(" + id + "]"}[x.Choose(9)]
					if sd, ok := sdata.Parse([]byte(raw)); ok {
						if b, err := sd.Marshal5424(); err != nil || sd.SDID() == regs[k] && string(b) != raw {
							x.Fail("%q is decoded as %#v", raw, sd)
						}
					}
				}
			})
		}},
		{Name: "late-types", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				n := counts[x.Choose(len(counts))]
				t := &typed{name: unique("late"), id: unique("id")}
				what := fmt.Sprintf("after %d decodings before the registration", n)
				raw := []string{"[" + t.id + "]", "[" + t.id + ` a="b"]`}
				mode := x.Choose(3) // the same element, other elements of the identifier, both
				for i := 0; i < n; i++ {
					r := raw[i%2]
					if mode == 1 || mode == 2 && i%3 == 2 {
						r = fmt.Sprintf(`[%s k%d="%d"]`, t.id, i, i)
					}
					sd, ok := sdata.Parse([]byte(r))
					if _, is := sd.(found); !ok || is {
						x.Fail("%s before the registration: %#v, %v", r, sd, ok)
					}
				}
				if x.Choose(2) == 0 {
					sdata.Register(t)
				} else {
					sdata.RegisterGroup(t)
				}
				for _, r := range raw {
					check(x, what, r, t)
				}
				check(x, what, "["+t.id+` new="1"]`, t)
				t.id = ""
			})
		}},
	}
}
