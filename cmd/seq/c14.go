package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/mc"
	"verif/ref"
)

func sdName() string { return "zoo@32473" }

type one[T any] struct{ Alpha T }
type tagged[T any] struct {
	Alpha T `sd5424:"other.name"`
}
type hidden[T any] struct {
	Alpha  T `sd5424:"-"`
	Beta   string
	gamma  T
	Delta  string `sd5424:"d"`
	hidden string
}
type mandatory[T any] struct {
	Alpha T `sd5424:"m,mandatory"`
	Beta  string
}
type mandatoryKeep[T any] struct {
	Beta  string
	Alpha T `sd5424:",mandatory"`
}
type two[T, U any] struct {
	Alpha T
	Beta  U `sd5424:"b,other"`
}
type mapOf[T any] map[string]T
type keyT string
type mapKey[T any] map[keyT]T

func (one[T]) String() string           { return sdName() }
func (one[T]) IsIANA() bool             { return false }
func (one[T]) GetPEN() uint64           { return 32473 }
func (tagged[T]) String() string        { return sdName() }
func (tagged[T]) IsIANA() bool          { return false }
func (tagged[T]) GetPEN() uint64        { return 32473 }
func (hidden[T]) String() string        { return sdName() }
func (hidden[T]) IsIANA() bool          { return false }
func (hidden[T]) GetPEN() uint64        { return 32473 }
func (mandatory[T]) String() string     { return sdName() }
func (mandatory[T]) IsIANA() bool       { return false }
func (mandatory[T]) GetPEN() uint64     { return 32473 }
func (mandatoryKeep[T]) String() string { return sdName() }
func (mandatoryKeep[T]) IsIANA() bool   { return false }
func (mandatoryKeep[T]) GetPEN() uint64 { return 32473 }
func (two[T, U]) String() string        { return sdName() }
func (two[T, U]) IsIANA() bool          { return false }
func (two[T, U]) GetPEN() uint64        { return 32473 }
func (mapOf[T]) String() string         { return sdName() }
func (mapOf[T]) IsIANA() bool           { return false }
func (mapOf[T]) GetPEN() uint64         { return 32473 }
func (mapKey[T]) String() string        { return sdName() }
func (mapKey[T]) IsIANA() bool          { return false }
func (mapKey[T]) GetPEN() uint64        { return 32473 }

// structs of the same fields with other tags
type firstShape struct {
	A     string
	Alpha string `sd5424:",other"`
	Name  string `json:"x" sd5424:"name,other"`
	d     string
	E     string `json:"e"`
}
type secondShape struct {
	A     string `sd5424:"x"`
	Alpha string `sd5424:"-"`
	Name  string `sd5424:"in\\valid,other" json:"name"`
	D     string `sd5424:"d,other,mandatory"`
	E     string
}

// Word is embedded.
type Word string
type withWord struct {
	Word
	C string
}

// anonymous gives an identifier to what embeds it.
type anonymous struct{}

func (anonymous) String() string   { return sdName() }
func (anonymous) IsIANA() bool     { return false }
func (anonymous) GetPEN() uint64   { return 32473 }
func (firstShape) String() string  { return sdName() }
func (firstShape) IsIANA() bool    { return false }
func (firstShape) GetPEN() uint64  { return 32473 }
func (secondShape) String() string { return sdName() }
func (secondShape) IsIANA() bool   { return false }
func (secondShape) GetPEN() uint64 { return 32473 }
func (withWord) String() string    { return sdName() }
func (withWord) IsIANA() bool      { return false }
func (withWord) GetPEN() uint64    { return 32473 }

// want judges the text of one parameter.
type want func(s string) bool

func wStr(v string) want { return func(s string) bool { return s == v } }
func wInt(v int64) want {
	return func(s string) bool { n, err := strconv.ParseInt(s, 10, 64); return err == nil && n == v }
}
func wUint(v uint64) want {
	return func(s string) bool { n, err := strconv.ParseUint(s, 10, 64); return err == nil && n == v }
}
func wFloat(v float64, bits int) want {
	return func(s string) bool {
		n, err := strconv.ParseFloat(s, bits)
		return err == nil && (n == v || n != n && v != v)
	}
}
func wBool(v bool) want {
	return func(s string) bool { return s == strconv.FormatBool(v) || s == strconv.Itoa(b2i(v)) }
}

// val is a value of type T with what must be encoded for it.
type val[T any] struct {
	v     T
	want  []want // one per parameter
	empty bool   // an empty field: left out of a struct (nothing or `want` in a map)
	err   bool   // cannot be encoded
}

type str5 string
type int5 int16

func ptr[T any](v T) *T { return &v }

func strs() []val[string] {
	var l []val[string]
	for _, s := range []string{"", "a", `"`, `\`, `]`, `a"b\c]d`, " ", "[", "=", "\n", "\x00", "\xff", "é", `\\`, `\"`, `\]`, `"]`, `""`} {
		l = append(l, val[string]{v: s, want: []want{wStr(s)}, empty: s == ""})
	}
	return l
}

var (
	bools   = []val[bool]{{v: false, want: []want{wBool(false)}}, {v: true, want: []want{wBool(true)}}}
	ints    = []val[int]{{v: 0, want: []want{wInt(0)}}, {v: 1, want: []want{wInt(1)}}, {v: -1, want: []want{wInt(-1)}}, {v: math.MaxInt64, want: []want{wInt(math.MaxInt64)}}, {v: math.MinInt64, want: []want{wInt(math.MinInt64)}}}
	int8s   = []val[int8]{{v: 127, want: []want{wInt(127)}}, {v: -128, want: []want{wInt(-128)}}}
	int16s  = []val[int5]{{v: 32767, want: []want{wInt(32767)}}, {v: 0, want: []want{wInt(0)}}}
	int32s  = []val[int32]{{v: math.MinInt32, want: []want{wInt(math.MinInt32)}}}
	int64s  = []val[int64]{{v: math.MinInt64, want: []want{wInt(math.MinInt64)}}}
	uints   = []val[uint]{{v: math.MaxUint64, want: []want{wUint(math.MaxUint64)}}, {v: 0, want: []want{wUint(0)}}}
	uint8s  = []val[uint8]{{v: 255, want: []want{wUint(255)}}, {v: 34, want: []want{wUint(34)}}}
	uint16s = []val[uint16_]{{v: 65535, want: []want{wUint(65535)}}}
	uint32s = []val[uint32_]{{v: math.MaxUint32, want: []want{wUint(math.MaxUint32)}}}
	uint64s = []val[uint64_]{{v: math.MaxUint64, want: []want{wUint(math.MaxUint64)}}}
	uptr    = []val[uintptr]{{v: 7, want: []want{wUint(7)}}}
	f32s    = []val[float32]{{v: 0.1, want: []want{wFloat(float64(float32(0.1)), 32)}}, {v: -1e30, want: []want{wFloat(float64(float32(-1e30)), 32)}}}
	f64s    = []val[float64]{{v: 0.1, want: []want{wFloat(0.1, 64)}}, {v: 1e300, want: []want{wFloat(1e300, 64)}}, {v: 0, want: []want{wFloat(0, 64)}}, {v: math.Inf(1), want: []want{wFloat(math.Inf(1), 64)}}}
	named   = []val[str5]{{v: `x"]`, want: []want{wStr(`x"]`)}}, {v: "", want: []want{wStr("")}, empty: true}}
	pstrs   = []val[*string]{{v: nil, empty: true}, {v: ptr(""), want: []want{wStr("")}}, {v: ptr(`a]`), want: []want{wStr(`a]`)}}}
	ppints  = []val[**int]{{v: nil, empty: true}, {v: ptr((*int)(nil))}, {v: ptr(ptr(3)), want: []want{wInt(3)}}}
	slices  = []val[[]string]{{v: nil, empty: true}, {v: []string{}, empty: true}, {v: []string{""}, want: []want{wStr("")}}, {v: []string{`"`}, want: []want{wStr(`"`)}},
		{v: []string{"a", `]`, "a"}, want: []want{wStr("a"), wStr("]"), wStr("a")}}}
	sliceP = []val[[]*int]{{v: nil, empty: true}, {v: []*int{ptr(1), nil, ptr(2)}, want: []want{wInt(1), wInt(2)}}, {v: []*int{nil}}}
	arrays = []val[[2]string]{{v: [2]string{"", ""}, want: []want{wStr(""), wStr("")}}, {v: [2]string{`\`, "b"}, want: []want{wStr(`\`), wStr("b")}}}
	array0 = []val[[0]int]{{v: [0]int{}, empty: true}}
	bytes_ = []val[[]byte]{{v: nil, empty: true}, {v: []byte{1, 200}, want: []want{wUint(1), wUint(200)}}}
	nested = []val[[][]string]{{v: nil, empty: true}, {v: [][]string{{"a", "b"}, nil, {"c"}}, want: []want{wStr("a"), wStr("b"), wStr("c")}}}
	ifaces = []val[interface{}]{{v: nil, empty: true}, {v: `"x`, want: []want{wStr(`"x`)}}, {v: 12, want: []want{wInt(12)}}, {v: ptr("p"), want: []want{wStr("p")}},
		{v: []string{"a", "b"}, want: []want{wStr("a"), wStr("b")}}, {v: [1]bool{true}, want: []want{wBool(true)}}, {v: struct{ A int }{1}, err: true}, {v: make(chan int), err: true},
		{v: func() {}, err: true}, {v: map[string]string{"a": "b"}, err: true}, {v: []interface{}{"a", 1}, want: []want{wStr("a"), wInt(1)}}}
	slifs = []val[[]interface{}]{{v: nil, empty: true}, {v: []interface{}{"a", nil, 2}, want: []want{wStr("a"), wInt(2)}}}
	chans = []val[chan int]{{v: make(chan int), err: true}}
	funcs = []val[func()]{{v: func() {}, err: true}}
	strcs = []val[struct{ A int }]{{err: true}}
	cmplx = []val[complex128]{{v: 1i, err: true}}
	maps_ = []val[map[string]int]{{v: map[string]int{"a": 1}, err: true}}
)

// marshals is structured data of the program's own, encoded as it says.
type marshals struct {
	out string
	err error
}

func (m marshals) SDID() sdata.SDID { return nil }
func (m marshals) Marshal5424() ([]byte, error) {
	return []byte(m.out), m.err
}

var (
	errOwn = errors.New("own")
	owns   = func() (l []val[marshals]) {
		for _, s := range []string{"[a]", `[a b="c\"d"]`, `"`, "-"} {
			l = append(l, val[marshals]{v: marshals{s, nil}, want: []want{wStr(s)}})
		}
		return append(l, val[marshals]{v: marshals{"[part", errOwn}, err: true}, val[marshals]{v: marshals{"", errOwn}, err: true})
	}()
	powns = []val[*marshals]{{v: nil, empty: true}, {v: &marshals{"[a]", nil}, want: []want{wStr("[a]")}}, {v: &marshals{`"x\`, errOwn}, err: true}}
	iowns = []val[sdata.StructuredData]{{v: nil, empty: true}, {v: (*marshals)(nil)}, {v: marshals{`a"b]`, nil}, want: []want{wStr(`a"b]`)}}, {v: &marshals{"x", errOwn}, err: true},
		{v: timequality.TimeQuality{TzKnown: true}, want: []want{wStr(`[timeQuality tzKnown="1"]`)}}}
	sowns = []val[[]marshals]{{v: nil, empty: true}, {v: []marshals{{"a", nil}, {`"`, nil}}, want: []want{wStr("a"), wStr(`"`)}}, {v: []marshals{{"a", nil}, {"b", errOwn}}, err: true}}
)

type uint16_ uint16
type uint32_ uint32
type uint64_ uint64

type expect struct {
	params []struct {
		name string
		w    want
	}
	err bool
}

func (e *expect) field(name string, ws []want, empty, err bool) {
	if err {
		e.err = true
	}
	if empty {
		return
	}
	for _, w := range ws {
		e.params = append(e.params, struct {
			name string
			w    want
		}{name, w})
	}
}

// judge encodes sd alone and in a message and compares it with e.
func judge(c *mc.C, x *mc.X, sd sdata.SDIDLight, e *expect) {
	x.Note("value %#v", sd)
	g := syslog5424.GenericSD(sd)
	b, err := g.Marshal5424()
	m := syslog5424.CreateWholeMessage(13, tsFixed, "h", "a", "p", "m", "text").StructuredData(g)
	mb, merr := m.Marshal5424()
	if w := sdata.MarshalSD(sd); string(w) != string(b) {
		x.Fail("MarshalSD of %#v gives %q, GenericSD %q", sd, w, b)
	}
	if e.err {
		if err == nil {
			x.Fail("%#v cannot be encoded and gives %q without an error", sd, b)
		}
		if len(b) != 0 {
			x.Fail("%#v cannot be encoded (%v) and gives %q", sd, err, b)
		}
		if merr == nil || len(mb) != 0 {
			x.Fail("a message with %#v, which cannot be encoded, gives %q, %v", sd, mb, merr)
		}
		return
	}
	if err != nil || merr != nil {
		x.Fail("%#v: %v, %v", sd, err, merr)
	}
	if c.WantSample() {
		c.Sample("%s", b)
	}
	l, err := ref.ParseElems(b)
	if err != nil || len(l) != 1 {
		x.Fail("%#v is encoded as %q, not one element: %v", sd, b, err)
	}
	got := l[0]
	if got.ID != sdName() || len(got.Params) != len(e.params) {
		x.Fail("%#v is encoded as %q: %d parameters wanted", sd, b, len(e.params))
	}
	for i, p := range e.params {
		if got.Params[i].Name != p.name || !p.w(got.Params[i].Val) {
			x.Fail("%#v is encoded as %q: parameter %d is %s=%q", sd, b, i, got.Params[i].Name, got.Params[i].Val)
		}
	}
	r, err := ref.Parse(mb, 191)
	if err != nil || len(r.SD) != 1 || r.SD[0].String() != got.String() || r.Text != "text" {
		x.Fail("a message with %#v is encoded as %q: %v", sd, mb, err)
	}
}

func singles[T any](kind string, vs []val[T]) mc.Unit {
	return mc.Unit{Name: "kind-" + kind, Run: func(c *mc.C) {
		c.Enumerate(func(x *mc.X) {
			v := vs[x.Choose(len(vs))]
			e := &expect{}
			switch x.Choose(9) {
			case 0:
				e.field("Alpha", v.want, v.empty, v.err)
				judge(c, x, one[T]{v.v}, e)
			case 1:
				e.field("other.name", v.want, v.empty, v.err)
				judge(c, x, tagged[T]{v.v}, e)
			case 2: // never encoded
				s := pick(x, []string{"", `"]`})
				e.field("Beta", []want{wStr(s)}, s == "", false)
				e.field("d", []want{wStr("d")}, false, false)
				judge(c, x, hidden[T]{v.v, s, v.v, "d", "x"}, e)
			case 3:
				e.field("m", v.want, v.empty, v.err || v.empty)
				e.field("Beta", []want{wStr("b")}, false, false)
				judge(c, x, mandatory[T]{v.v, "b"}, e)
			case 4:
				e.field("Beta", []want{wStr("b")}, false, false)
				e.field("Alpha", v.want, v.empty, v.err || v.empty)
				judge(c, x, mandatoryKeep[T]{"b", v.v}, e)
			case 5, 6: // maps of up to two entries
				keys := []string{"a", "b", "B", "aa", "~"}
				m, m2 := mapOf[T]{}, mapKey[T]{}
				var ks []string
				vals := map[string]val[T]{}
				n := x.Choose(3)
				for i := 0; i < n; i++ {
					k := keys[x.Choose(len(keys))]
					w := v
					if i > 0 {
						w = vs[x.Choose(len(vs))]
					}
					if _, ok := vals[k]; !ok {
						ks = append(ks, k)
					}
					vals[k] = w
					m[k] = w.v
					m2[keyT(k)] = w.v
				}
				sort.Strings(ks)
				for _, k := range ks {
					e.field(k, vals[k].want, false, vals[k].err)
				}
				judge(c, x, m, e)
				judge(c, x, m2, e)
			case 7:
				judge(c, x, mapOf[T](nil), e)
			case 8: // a pointer to the struct is not a structured data value of its own: an error or the same encoding
				g := syslog5424.GenericSD(&one[T]{v.v})
				if b, err := g.Marshal5424(); err != nil && len(b) != 0 {
					x.Fail("pointer to %#v: error %v and %q", v.v, err, b)
				}
			}
		})
	}}
}

func pair[T, U any](name string, a []val[T], b []val[U]) mc.Unit {
	return mc.Unit{Name: "pair-" + name, Run: func(c *mc.C) {
		c.Enumerate(func(x *mc.X) {
			v, w := a[x.Choose(len(a))], b[x.Choose(len(b))]
			e := &expect{}
			e.field("Alpha", v.want, v.empty, v.err)
			e.field("b", w.want, w.empty, w.err)
			judge(c, x, two[T, U]{v.v, w.v}, e)
		})
	}}
}

func pairs[T any](name string, a []val[T]) []mc.Unit {
	return []mc.Unit{pair(name+"-string", a, strs()), pair(name+"-bool", a, bools), pair(name+"-int", a, ints), pair(name+"-pointer", a, pstrs), pair(name+"-slice", a, slices),
		pair(name+"-array", a, arrays), pair(name+"-interface", a, ifaces), pair(name+"-chan", a, chans), pair(name+"-named", a, named), pair(name+"-nested", a, nested)}
}

// fresh are elements of types that nothing else in the process uses: what is kept about a type is not there yet.
type fresh[M any] struct{ Alpha string }
type freshMap[M any] map[string]string

func (fresh[M]) String() string    { return sdName() }
func (fresh[M]) IsIANA() bool      { return false }
func (fresh[M]) GetPEN() uint64    { return 32473 }
func (freshMap[M]) String() string { return sdName() }
func (freshMap[M]) IsIANA() bool   { return false }
func (freshMap[M]) GetPEN() uint64 { return 32473 }

// inside uses a type as an element of its own and as a field of another one, where it can not be encoded, in the two
// orders, several times; M and N are two types for that alone.
func inside[M, N any](c *mc.C) {
	c.Enumerate(func(x *mc.X) {
		if x.Choose(2) == 0 {
			elementsThenFields(c, x, fresh[M]{"v"}, freshMap[M]{"k": "v"}, true)
		} else {
			elementsThenFields(c, x, fresh[N]{"v"}, freshMap[N]{"k": "v"}, false)
		}
	})
}

func elementsThenFields[S, T sdata.SDIDLight](c *mc.C, x *mc.X, s S, m T, first bool) {
	roots := func() {
		e := &expect{}
		e.field("Alpha", []want{wStr("v")}, false, false)
		judge(c, x, s, e)
		e = &expect{}
		e.field("k", []want{wStr("v")}, false, false)
		judge(c, x, m, e)
	}
	fields := func() {
		e := &expect{}
		e.field("Alpha", nil, false, true)
		judge(c, x, one[S]{s}, e)
		judge(c, x, one[T]{m}, e)
		judge(c, x, one[*S]{&s}, e)
		judge(c, x, one[*T]{&m}, e)
		judge(c, x, one[[]S]{[]S{s}}, e)
		judge(c, x, one[[]T]{[]T{m}}, e)
		judge(c, x, one[interface{}]{s}, e)
		judge(c, x, one[interface{}]{m}, e)
		judge(c, x, one[[]interface{}]{[]interface{}{s}}, e)
		judge(c, x, mapOf[S]{"Alpha": s}, e)
		judge(c, x, mapOf[T]{"Alpha": m}, e)
		judge(c, x, mapOf[interface{}]{"Alpha": m}, e)
	}
	for i := 0; i < 2; i++ {
		if first {
			fields()
			roots()
		} else {
			roots()
			fields()
		}
	}
}

var c14 = &mc.Property{
	ID: "C14",
	Bounds: func(deep bool) string {
		return "31 field kinds with up to 18 values each, in 9 containers (plain, tagged, hidden, mandatory, map of up to two entries, nil map, ...); all pairs of 10 kinds in a struct; string values of up to 5 (thorough 7) tokens of the structural alphabet, every byte pair, lengths up to 300; maps with every subset of 6 keys; lists of up to 4 items; values of each size around the powers of 2 and 10 up to 70000 bytes (thorough 2 MiB), up to 1100 (thorough 40000) items and entries; numbers around all powers of 2 and 10; elements of a type before and after fields of it; sequences of 3 of 8 types that are alike"
	},
	Assume: []string{"the reference reader in /verif/ref is right", "parameter names and identifiers given by the program are valid", "values that print themselves (String methods) are out of bounds"},
	Units: func(deep bool) (l []mc.Unit) {
		l = append(l, singles("string", strs()), singles("bool", bools), singles("int", ints), singles("int8", int8s), singles("int16", int16s), singles("int32", int32s), singles("int64", int64s),
			singles("uint", uints), singles("uint8", uint8s), singles("uint16", uint16s), singles("uint32", uint32s), singles("uint64", uint64s), singles("uintptr", uptr), singles("float32", f32s), singles("float64", f64s),
			singles("named", named), singles("pointer", pstrs), singles("pointer2", ppints), singles("slice", slices), singles("pslice", sliceP), singles("array", arrays), singles("array0", array0),
			singles("bytes", bytes_), singles("nested", nested), singles("interface", ifaces), singles("islice", slifs), singles("chan", chans), singles("func", funcs), singles("struct", strcs), singles("complex", cmplx), singles("map", maps_),
			singles("own", owns), singles("pown", powns), singles("iown", iowns), singles("sown", sowns))
		l = append(l, mc.Unit{Name: "whole", Run: func(c *mc.C) { // MarshalSD of what encodes itself
			c.Enumerate(func(x *mc.X) {
				var v sdata.StructuredData
				switch x.Choose(4) {
				case 0:
					v = owns[x.Choose(len(owns))].v
				case 1:
					v = &owns[x.Choose(len(owns))].v
				case 2:
					v = syslog5424.GenericSD(mapOf[string]{"a": pick(x, []string{"", `"]\`, "b"})})
				case 3:
					v = timequality.TimeQuality{TzKnown: x.Choose(2) == 1}
				}
				w, err := v.Marshal5424()
				if err != nil {
					w = nil
				}
				if b := sdata.MarshalSD(v); string(b) != string(w) {
					x.Fail("MarshalSD of %#v gives %q and not %q", v, b, w)
				}
				m := syslog5424.CreateWholeMessage(13, tsFixed, "h", "a", "p", "m", "text").StructuredData(v)
				if b, e := m.Marshal5424(); (e != nil) != (err != nil) || err != nil && len(b) != 0 || err == nil && !strings.HasSuffix(string(b), " m "+string(w)+" text") {
					x.Fail("a message with %#v (%q, %v) is encoded as %q, %v", v, w, err, b, e)
				}
			})
		}})
		l = append(l, pairs("string", strs())...)
		l = append(l, pairs("int", ints)...)
		l = append(l, pairs("pointer", pstrs)...)
		l = append(l, pairs("slice", slices)...)
		l = append(l, pairs("array", arrays)...)
		l = append(l, pairs("interface", ifaces)...)
		l = append(l, pairs("chan", chans)...)
		l = append(l, pairs("nested", nested)...)
		l = append(l, pairs("bool", bools)...)
		l = append(l, pairs("pslice", sliceP)...)
		tokens := []string{"a", " ", `"`, `\`, `]`, "[", "=", "\n"}
		n := 4
		if deep {
			n = 6
		}
		for i := range tokens {
			i := i
			l = append(l, mc.Unit{Name: fmt.Sprintf("strings-%d", i), Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					s := tokens[i] + str(x, tokens, 0, n)
					e := &expect{}
					e.field("Alpha", []want{wStr(s)}, false, false)
					judge(c, x, one[string]{s}, e)
				})
			}})
		}
		for h := 0; h < 8; h++ {
			h := h
			l = append(l, mc.Unit{Name: fmt.Sprintf("bytes-%d", h), Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					s := string([]byte{byte(h*32 + x.Choose(32)), byte(x.Choose(256))})
					e := &expect{}
					e.field("k", []want{wStr(s)}, false, false)
					judge(c, x, mapOf[string]{"k": s}, e)
				})
			}})
		}
		l = append(l, mc.Unit{Name: "lengths", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				s := strings.Repeat(pick(x, []string{"a", `"`, `\`, "é"}), 1+x.Choose(300))
				e := &expect{}
				e.field("Alpha", []want{wStr(s)}, false, false)
				judge(c, x, one[string]{s}, e)
			})
		}}, mc.Unit{Name: "large", Run: func(c *mc.C) {
			sizes := around(301, 70000, 2, 2)
			if deep {
				sizes = around(301, 1<<21, 20, 20)
			}
			c.Enumerate(func(x *mc.X) {
				n := sizes[x.Choose(len(sizes))]
				n -= []int{0, len(`[zoo@32473 Alpha=""]`), len(`[zoo@32473 Alpha="`)}[x.Choose(3)] // the value, the element, what comes before the end
				s := strings.Repeat(pick(x, []string{"a", `"`, "\u00e9"}), n)
				s = s[:n]
				e := &expect{}
				e.field("Alpha", []want{wStr(s)}, false, false)
				switch x.Choose(3) {
				case 0:
					judge(c, x, one[string]{s}, e)
				case 1:
					e.field("b", []want{wStr("x")}, false, false)
					judge(c, x, two[*string, string]{&s, "x"}, e)
				case 2:
					judge(c, x, one[interface{}]{[]string{s}}, e)
				}
			})
		}}, mc.Unit{Name: "numerous", Run: func(c *mc.C) {
			counts := around(5, 1100, 1, 1)
			if deep {
				counts = around(5, 40000, 3, 3)
			}
			c.Enumerate(func(x *mc.X) {
				n := counts[x.Choose(len(counts))]
				e := &expect{}
				v := func(i int) string { return []string{"v", `]"`, strings.Repeat("v", i%40)}[i%3] }
				switch x.Choose(6) {
				case 0, 1: // a map, and a map of lists
					m := mapOf[string]{}
					l := mapOf[[]string]{}
					var ks []string
					for i := 0; i < n; i++ {
						k := fmt.Sprintf("%c%d", "kK"[i%2], i)
						m[k] = v(i)
						l[k] = []string{v(i), "x"}
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						e.field(k, []want{wStr(m[k])}, false, false)
					}
					judge(c, x, m, e)
					e = &expect{}
					for _, k := range ks {
						e.field(k, []want{wStr(m[k]), wStr("x")}, false, false)
					}
					judge(c, x, l, e)
				case 2:
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, v(i))
						e.field("Alpha", []want{wStr(v(i))}, false, false)
					}
					judge(c, x, one[[]string]{l}, e)
				case 3:
					var l []interface{}
					for i := 0; i < n; i++ {
						l = append(l, i, v(i), nil, []int{i})
						e.field("m", []want{wInt(int64(i)), wStr(v(i)), wInt(int64(i))}, false, false)
					}
					e.field("Beta", []want{wStr("b")}, false, false)
					judge(c, x, mandatory[[]interface{}]{l, "b"}, e)
				case 4: // depth
					if n > 130 {
						return
					}
					var y interface{} = "deep"
					for i := 0; i < n; i++ {
						if i%2 == 0 {
							y = []interface{}{y}
						} else {
							z := y
							y = &z
						}
					}
					e.field("Alpha", []want{wStr("deep")}, false, false)
					judge(c, x, one[interface{}]{y}, e)
				case 5:
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(i)
						e.field("Alpha", []want{wUint(uint64(byte(i)))}, false, false)
					}
					judge(c, x, one[[]byte]{b}, e)
				}
			})
		}}, mc.Unit{Name: "inside", Run: func(c *mc.C) {
			inside[[1]int, [2]int](c)
		}}, mc.Unit{Name: "numbers", Run: func(c *mc.C) {
			var is []int64
			for i := uint(0); i < 64; i++ {
				for d := int64(-1); d <= 1; d++ {
					is = append(is, int64(uint64(1)<<i)+d, -int64(uint64(1)<<i)+d)
				}
			}
			for p := int64(1); p > 0 && p <= 1e18; p *= 10 {
				for d := int64(-1); d <= 1; d++ {
					is = append(is, p+d, -p+d)
				}
			}
			var fs []float64
			for _, m := range []float64{1, 1.5, 9.999999, 1.2345678901234567, 3, -7.25, 1.0000001} {
				for p := -30; p <= 30; p++ {
					fs = append(fs, m*math.Pow(10, float64(p)), m*math.Pow(2, float64(5*p)))
				}
			}
			fs = append(fs, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1<<53, 1<<53+2, 1<<24+1)
			c.Enumerate(func(x *mc.X) {
				e := &expect{}
				if x.Choose(2) == 0 {
					i := is[x.Choose(len(is))]
					e.field("Alpha", []want{wInt(i)}, false, false)
					e.field("b", []want{wUint(uint64(i))}, false, false)
					judge(c, x, two[int64, uint64]{i, uint64(i)}, e)
					e = &expect{}
					e.field("Alpha", []want{wInt(int64(int32(i)))}, false, false)
					e.field("b", []want{wUint(uint64(uint16(i))), wUint(uint64(uint32(i)))}, false, false)
					judge(c, x, two[*int32, []interface{}]{ptr(int32(i)), []interface{}{uint16(i), ptr(uint32(i))}}, e)
					return
				}
				f := fs[x.Choose(len(fs))]
				e.field("Alpha", []want{wFloat(f, 64)}, false, false)
				e.field("b", []want{wFloat(float64(float32(f)), 32), wFloat(f, 64)}, false, false)
				judge(c, x, two[float64, []interface{}]{f, []interface{}{float32(f), &f}}, e)
			})
		}}, mc.Unit{Name: "types", Run: func(c *mc.C) {
			// types that are alike in some way, one after the other in every order
			alike := []func() (sdata.SDIDLight, *expect){
				func() (sdata.SDIDLight, *expect) {
					e := &expect{}
					e.field("Alpha", []want{wStr("1")}, false, false)
					e.field("b", []want{wStr("a"), wStr("b")}, false, false)
					return two[interface{}, []str5]{"1", []str5{"a", "b"}}, e
				},
				func() (sdata.SDIDLight, *expect) {
					type item string
					e := &expect{}
					e.field("Alpha", []want{wStr("x")}, false, false)
					return one[item]{"x"}, e
				},
				func() (sdata.SDIDLight, *expect) {
					type item int
					e := &expect{}
					e.field("Alpha", []want{wInt(7)}, false, false)
					return one[item]{7}, e
				},
				func() (sdata.SDIDLight, *expect) {
					type item []string
					e := &expect{}
					e.field("Alpha", []want{wStr("p"), wStr("q")}, false, false)
					return one[item]{item{"p", "q"}}, e
				},
				func() (sdata.SDIDLight, *expect) {
					type item chan int
					return one[item]{make(item)}, &expect{err: true}
				},
				func() (sdata.SDIDLight, *expect) {
					e := &expect{}
					e.field("A", []want{wStr("1")}, false, false)
					e.field("Alpha", []want{wStr("2")}, false, false)
					e.field("name", []want{wStr("3")}, false, false)
					e.field("E", []want{wStr("5")}, false, false)
					return firstShape{"1", "2", "3", "4", "5"}, e
				},
				func() (sdata.SDIDLight, *expect) {
					e := &expect{}
					e.field("x", []want{wStr("1")}, false, false)
					e.field("Name", []want{wStr("3")}, false, false)
					e.field("d", []want{wStr("4")}, false, false)
					return secondShape{"1", "2", "3", "4", ""}, e
				},
				func() (sdata.SDIDLight, *expect) {
					e := &expect{}
					e.field("Word", []want{wStr(`w"`)}, false, false)
					e.field("C", []want{wStr("c")}, false, false)
					return withWord{`w"`, "c"}, e
				},
				func() (sdata.SDIDLight, *expect) {
					type data struct {
						anonymous
						Code string
						N    int
					}
					e := &expect{}
					e.field("Code", []want{wStr("c")}, false, false)
					e.field("N", []want{wInt(3)}, false, false)
					return data{Code: "c", N: 3}, e
				},
				func() (sdata.SDIDLight, *expect) {
					type data struct {
						anonymous
						Other string `sd5424:"o"`
						N     string
					}
					e := &expect{}
					e.field("o", []want{wStr("d")}, false, false)
					e.field("N", []want{wStr("4")}, false, false)
					return data{Other: "d", N: "4"}, e
				},
				func() (sdata.SDIDLight, *expect) {
					type data struct {
						anonymous
						N    int
						Code []string
					}
					e := &expect{}
					e.field("N", []want{wInt(5)}, false, false)
					e.field("Code", []want{wStr("1"), wStr("2")}, false, false)
					return data{N: 5, Code: []string{"1", "2"}}, e
				},
				func() (sdata.SDIDLight, *expect) {
					e := &expect{}
					e.field("X", []want{wStr("d")}, false, false)
					return struct {
						anonymous
						X string
					}{X: "d"}, e
				},
				func() (sdata.SDIDLight, *expect) {
					e := &expect{}
					e.field("Y", []want{wStr("e")}, false, false)
					return struct {
						anonymous
						Y string
					}{Y: "e"}, e
				},
			}
			c.Enumerate(func(x *mc.X) {
				for i := 0; i < 3; i++ {
					sd, e := alike[x.Choose(len(alike))]()
					judge(c, x, sd, e)
				}
			})
		}}, mc.Unit{Name: "map-subsets", Run: func(c *mc.C) {
			keys := []string{"A", "B", "a", "aa", "b", "zz"} // sorted
			c.Enumerate(func(x *mc.X) {
				m := mapOf[string]{}
				e := &expect{}
				for _, k := range keys {
					if n := x.Choose(3); n > 0 {
						m[k] = []string{"", `\]`}[n-1]
						e.field(k, []want{wStr(m[k])}, false, false)
					}
				}
				judge(c, x, m, e)
			})
		}}, mc.Unit{Name: "lists", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				var items []string
				e := &expect{}
				for i, n := 0, x.Choose(5); i < n; i++ {
					s := pick(x, []string{"", "a", `"`, `]`, `\`})
					items = append(items, s)
					e.field("k", []want{wStr(s)}, false, false)
				}
				judge(c, x, mapOf[[]string]{"k": items}, e)
			})
		}}, mc.Unit{Name: "lists-of-elements", Run: func(c *mc.C) {
			// one element that cannot be encoded spoils the whole list, wherever it is
			c.Enumerate(func(x *mc.X) {
				var sds []sdata.StructuredData
				bad := false
				for i, n := 0, x.Choose(4); i < n; i++ {
					switch x.Choose(3) {
					case 0:
						sds = append(sds, syslog5424.GenericSD(one[string]{"v"}))
					case 1:
						sds = append(sds, syslog5424.GenericSD(mapOf[string](nil)))
					case 2:
						bad = true
						sds = append(sds, syslog5424.GenericSD(one[chan int]{make(chan int)}))
					}
				}
				m := syslog5424.CreateWholeMessage(13, tsFixed, "h", "a", "p", "m", "text").StructuredData(sds...)
				b, err := m.Marshal5424()
				if bad {
					if err == nil || len(b) != 0 {
						x.Fail("a list with an element that cannot be encoded gives %q, %v", b, err)
					}
					return
				}
				r, rerr := ref.Parse(b, 191)
				if err != nil || rerr != nil || len(r.SD) != len(sds) {
					x.Fail("a list of %d elements gives %q, %v, %v", len(sds), b, err, rerr)
				}
			})
		}}, mc.Unit{Name: "nil", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				var g sdata.StructuredData
				switch x.Choose(4) {
				case 0:
					g = syslog5424.GenericSD(nil)
				case 1:
					g = syslog5424.GenericSD((*one[string])(nil))
				case 2:
					g = syslog5424.GenericSD(mapOf[sdata.StructuredData]{"a": nil})
				case 3:
					g = syslog5424.GenericSD(mapOf[interface{}]{"a": nil})
				}
				if b, err := g.Marshal5424(); err != nil && len(b) != 0 {
					x.Fail("error %v and %q", err, b)
				}
			})
		}})
		return
	},
}
