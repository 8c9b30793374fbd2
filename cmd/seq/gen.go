package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"
)

// Enumeration of the RFC 5424 grammar.

var (
	dates = []string{"1970-01-01", "1999-12-31", "2003-10-11", "2024-02-29", "2023-02-28", "2000-02-29", "2100-03-01", "9999-12-31", "0002-01-01"}
	times = []string{"00:00:00", "12:34:56", "23:59:59"}
	fracs = []string{"", ".0", ".1", ".000", ".003", ".12", ".1234", ".12345", ".000003", ".999999", ".100000", ".120", ".000000"}
	zones = []string{"Z", "+00:00", "-00:00", "+01:00", "-07:00", "+05:30", "-23:59", "+23:59", "-00:01"}
)

func timestamps() (l []string) {
	for _, d := range dates {
		for _, t := range times {
			for _, f := range fracs {
				for _, z := range zones {
					l = append(l, d+"T"+t+f+z)
				}
			}
		}
	}
	return
}

// baseline is the message the enumerated parts are put in.
func baseline() *ref.Msg {
	return &ref.Msg{Pri: 165, TS: "2003-10-11T22:14:15.003Z", Host: "h.example", App: "app", Proc: "42", MsgID: "ID47"}
}

func pick(x *mc.X, l []string) string { return l[x.Choose(len(l))] }

// str chooses a string of min to max tokens of the alphabet.
func str(x *mc.X, alphabet []string, min, max int) string {
	s := ""
	for i := 0; i < max; i++ {
		n := 0
		if i >= min {
			if n = x.Choose(len(alphabet) + 1); n == 0 {
				break
			}
			n--
		} else {
			n = x.Choose(len(alphabet))
		}
		s += alphabet[n]
	}
	return s
}

// values are the raw tokens of a parameter value: every special character, escaped as needed.
var valueTokens = []string{"a", " ", `\"`, `\\`, `\]`, `\a`, "[", "=", "\u00e9"}
var valueTokensSmall = []string{"a", " ", `\"`, `\\`, `\]`, "["}
var textTokens = []string{"a", " ", "]", "[", `"`, `\`, "-", "\n", "\x00", "\xff", "\xef\xbb\xbf"}
var textTokensSmall = []string{"a", " ", "]", "[", `"`, `\`}

func param(name, raw string) ref.Param {
	v := raw
	var b []byte
	for i := 0; i < len(v); i++ {
		if v[i] == '\\' && i+1 < len(v) && strings.IndexByte(`"\]`, v[i+1]) >= 0 {
			i++
		}
		b = append(b, v[i])
	}
	return ref.Param{Name: name, Raw: raw, Val: string(b)}
}

var sdNames = []string{"a", "x@32473", "!", "~a-b.c:d/e", strings.Repeat("n", 32), `[\`, "timeQualit", "timeQualityX", "timeQuality@1"}

// elements are the shapes used in combinations.
func shapes() []ref.Elem {
	p := param
	return []ref.Elem{
		{ID: "x@1"},
		{ID: "a", Params: []ref.Param{p("k", "")}},
		{ID: "ex@32473", Params: []ref.Param{p("iut", "3"), p("k", `a\]b`)}},
		{ID: "ex@32473", Params: []ref.Param{p("k", `\\`)}},
		{ID: "ex@32473", Params: []ref.Param{p("k", `\"\] [`)}},
		{ID: "e", Params: []ref.Param{p("k", "v"), p("k", "v")}},
		{ID: "timeQuality"},
		{ID: "timeQuality", Params: []ref.Param{p("tzKnown", "1"), p("isSynced", "1"), p("syncAccuracy", "100")}},
		{ID: "timeQuality", Params: []ref.Param{p("isSynced", "1"), p("tzKnown", "1")}},
		{ID: "timeQuality", Params: []ref.Param{p("isSynced", "1")}}, // inconsistent
		{ID: "timeQuality", Params: []ref.Param{p("other", "1")}},    // unknown parameter
	}
}

var tqParams = [][]string{{"tzKnown", "0"}, {"tzKnown", "1"}, {"tzKnown", "2"}, {"isSynced", "0"}, {"isSynced", "1"}, {"isSynced", ""},
	{"syncAccuracy", "0"}, {"syncAccuracy", "1"}, {"syncAccuracy", "60000000"}, {"syncAccuracy", "-5"}, {"syncAccuracy", "9223372036854775807"},
	{"syncAccuracy", "9223372036854775808"}, {"syncAccuracy", "a"}, {"other", "1"}}

var printable = func() (l []string) {
	for c := 33; c < 127; c++ {
		l = append(l, string(rune(c)))
	}
	return
}()

var specials = []string{"-", "[", "]", `"`, `\`, "=", "<", ">", "%", "a", "1"}

type genUnit struct {
	name string
	gen  func(x *mc.X) *ref.Msg
}

// around lists the numbers from lo to hi that are at most below under and at most above over a power of 2 or 10.
func around(lo, hi, below, above int) (l []int) {
	seen := map[int]bool{}
	for _, base := range []int{2, 10} {
		for p := 1; p <= hi+below; p *= base {
			for n := p - below; n <= p+above; n++ {
				if n >= lo && n <= hi && !seen[n] {
					seen[n] = true
					l = append(l, n)
				}
			}
		}
	}
	sort.Ints(l)
	return
}

// grammar lists the enumerations of valid messages used by C12 and C15.
func grammar(deep bool) (l []genUnit) {
	add := func(name string, gen func(x *mc.X) *ref.Msg) { l = append(l, genUnit{name, gen}) }
	ts := timestamps()
	add("priorities", func(x *mc.X) *ref.Msg { m := baseline(); m.Pri = x.Choose(192); return m })
	for i := 0; i < 4; i++ {
		i := i
		add(fmt.Sprintf("timestamps-%d", i), func(x *mc.X) *ref.Msg {
			m := baseline()
			q := (len(ts) + 3) / 4
			hi := (i + 1) * q
			if hi > len(ts) {
				hi = len(ts)
			}
			m.TS = ts[i*q+x.Choose(hi-i*q)]
			return m
		})
	}
	add("no-timestamp", func(x *mc.X) *ref.Msg {
		m := baseline()
		m.TS = "-"
		m.SD = someSD(x)
		text(x, m, textTokensSmall, 2)
		return m
	})
	fields := []struct {
		name string
		max  int
		set  func(m *ref.Msg, s string)
	}{
		{"host", 255, func(m *ref.Msg, s string) { m.Host = s }},
		{"app", 48, func(m *ref.Msg, s string) { m.App = s }},
		{"procid", 128, func(m *ref.Msg, s string) { m.Proc = s }},
		{"msgid", 32, func(m *ref.Msg, s string) { m.MsgID = s }},
	}
	for _, f := range fields {
		f := f
		add(f.name+"-chars", func(x *mc.X) *ref.Msg {
			m := baseline()
			f.set(m, pick(x, printable)+pick(x, append([]string{""}, printable...)))
			return m
		})
		add(f.name+"-lengths", func(x *mc.X) *ref.Msg {
			m := baseline()
			f.set(m, strings.Repeat(pick(x, []string{"x", "-", "[", "\"", "~"}), 1+x.Choose(f.max)))
			return m
		})
	}
	add("header-combinations", func(x *mc.X) *ref.Msg {
		m := baseline()
		vals := []string{"-", "--", "a", "[", "]"}
		m.TS = pick(x, []string{"-", "2003-10-11T22:14:15Z", "1985-04-12T23:20:50.52-04:00"})
		m.Host, m.App, m.Proc, m.MsgID = pick(x, vals), pick(x, vals), pick(x, vals), pick(x, vals)
		m.SD = []([]ref.Elem){nil, {{ID: "x"}}, {shapes()[2], shapes()[6]}}[x.Choose(3)]
		switch x.Choose(4) {
		case 1:
			m.HasText = true
		case 2:
			m.HasText, m.Text = true, "-"
		case 3:
			m.HasText, m.Text = true, "[a] text"
		}
		return m
	})
	nv := 4
	if deep {
		nv = 5
	}
	for i := range valueTokens {
		i := i
		add(fmt.Sprintf("value-%d", i), func(x *mc.X) *ref.Msg {
			m := baseline()
			v := valueTokens[i] + str(x, valueTokens, 0, nv)
			m.SD = []ref.Elem{{ID: "e@1", Params: []ref.Param{param("k", v)}}}
			text(x, m, []string{"]", `"`, "a"}, 1)
			return m
		})
	}
	add("two-values", func(x *mc.X) *ref.Msg {
		m := baseline()
		m.SD = []ref.Elem{{ID: "e", Params: []ref.Param{param("k", str(x, valueTokensSmall, 0, 2)), param("l", str(x, valueTokensSmall, 0, 2))}}}
		text(x, m, textTokensSmall, 1)
		return m
	})
	add("two-elements", func(x *mc.X) *ref.Msg {
		m := baseline()
		m.SD = []ref.Elem{{ID: "e", Params: []ref.Param{param("k", str(x, valueTokensSmall, 0, 2))}}, {ID: "f", Params: []ref.Param{param("l", str(x, valueTokensSmall, 0, 2))}}}
		text(x, m, textTokensSmall, 1)
		return m
	})
	add("names", func(x *mc.X) *ref.Msg {
		m := baseline()
		e := ref.Elem{ID: pick(x, sdNames)}
		for i, n := 0, x.Choose(3); i < n; i++ {
			e.Params = append(e.Params, param(pick(x, sdNames), pick(x, []string{"", "v", `\]`})))
		}
		m.SD = []ref.Elem{e}
		text(x, m, []string{"a"}, 1)
		return m
	})
	nameChars := []string{}
	for _, c := range printable {
		if c != "=" && c != "]" && c != `"` {
			nameChars = append(nameChars, c)
		}
	}
	add("id-chars", func(x *mc.X) *ref.Msg {
		m := baseline()
		e := ref.Elem{ID: pick(x, nameChars) + pick(x, append([]string{""}, nameChars...))}
		if x.Choose(2) == 1 {
			e.Params = []ref.Param{param("k", "v")}
		}
		m.SD = []ref.Elem{e}
		return m
	})
	add("param-name-chars", func(x *mc.X) *ref.Msg {
		m := baseline()
		m.SD = []ref.Elem{{ID: "e", Params: []ref.Param{param(pick(x, nameChars)+pick(x, append([]string{""}, nameChars...)), pick(x, []string{"", "v"}))}}}
		return m
	})
	add("name-lengths", func(x *mc.X) *ref.Msg {
		m := baseline()
		e := ref.Elem{ID: strings.Repeat("i", 1+x.Choose(32))}
		for i, n := 0, x.Choose(3); i < n; i++ {
			e.Params = append(e.Params, param(strings.Repeat("p", 1+x.Choose(32)), ""))
		}
		m.SD = []ref.Elem{e}
		return m
	})
	add("value-lengths", func(x *mc.X) *ref.Msg {
		m := baseline()
		m.SD = []ref.Elem{{ID: "e", Params: []ref.Param{param("p", strings.Repeat(pick(x, []string{"v", `\]`, `\\`, " "}), x.Choose(300)))}}}
		return m
	})
	add("value-bytes", func(x *mc.X) *ref.Msg { // every byte in a value and in the text
		m := baseline()
		raw := func() string { return ref.Escape(string([]byte{byte(x.Choose(256))})) }
		switch x.Choose(2) {
		case 0:
			m.SD = []ref.Elem{{ID: "e", Params: []ref.Param{param("p", raw()), param("q", raw())}}}
		case 1:
			m.HasText = true
			m.Text = string([]byte{byte(x.Choose(256)), byte(x.Choose(256))})
		}
		return m
	})
	sh := shapes()
	for i := range sh {
		i := i
		add(fmt.Sprintf("elements-%d", i), func(x *mc.X) *ref.Msg {
			m := baseline()
			m.SD = []ref.Elem{sh[i]}
			for j, n := 0, x.Choose(3); j < n; j++ {
				m.SD = append(m.SD, sh[x.Choose(len(sh))])
			}
			text(x, m, textTokensSmall, 1+b2i(deep))
			return m
		})
	}
	add("many-elements", func(x *mc.X) *ref.Msg {
		m := baseline()
		s := sh[x.Choose(len(sh))]
		for i, n := 0, 1+x.Choose(40); i < n; i++ {
			m.SD = append(m.SD, s)
		}
		text(x, m, []string{"]"}, 1)
		return m
	})
	add("many-params", func(x *mc.X) *ref.Msg {
		m := baseline()
		e := ref.Elem{ID: "e"}
		raw := pick(x, []string{"", "v", `\"`, `\\`, `\]`})
		for i, n := 0, 1+x.Choose(60); i < n; i++ {
			e.Params = append(e.Params, param(fmt.Sprintf("p%d", i), raw))
		}
		m.SD = []ref.Elem{e, e}
		return m
	})
	for _, p := range tqParams {
		p := p
		add("timequality-"+p[0]+"="+p[1], func(x *mc.X) *ref.Msg {
			m := baseline()
			e := ref.Elem{ID: "timeQuality", Params: []ref.Param{param(p[0], p[1])}}
			used := map[string]bool{p[0]: true}
			for j, n := 0, x.Choose(4); j < n; j++ {
				q := tqParams[x.Choose(len(tqParams))]
				if used[q[0]] { // repeated parameters are out of bounds
					break
				}
				used[q[0]] = true
				e.Params = append(e.Params, param(q[0], q[1]))
			}
			m.SD = []ref.Elem{e}
			return m
		})
	}
	nt := 4
	if deep {
		nt = 5
	}
	for i := range textTokens {
		i := i
		add(fmt.Sprintf("text-%d", i), func(x *mc.X) *ref.Msg {
			m := baseline()
			m.SD = someSD(x)
			m.HasText = true
			m.Text = textTokens[i] + str(x, textTokens, 0, nt)
			return m
		})
	}
	// sizes at which counters and buffers change
	big := around(200, 70000, 2, 2)
	if deep {
		big = around(200, 1<<20+100, 60, 60)
	}
	for k := 0; k < 4; k++ {
		k := k
		add(fmt.Sprintf("large-%d", k), func(x *mc.X) *ref.Msg {
			m := baseline()
			n := big[x.Choose(len(big))]
			head := len(m.String()) - 1
			m.HasText, m.Text = true, pick(x, []string{"text ]", strings.Repeat("t", 300)})
			fill := pick(x, []string{"v", `\"`})
			switch k {
			case 0: // the text is large
				if x.Choose(2) == 1 {
					n -= head + 2 // and the message of that size
				}
				m.Text = strings.Repeat(fill, n/len(fill)) + strings.Repeat("x", n%len(fill))
			case 1, 2: // the structured data
				n -= head * x.Choose(2)
				n -= len(`[e p=""]`) * x.Choose(2)
				m.SD = []ref.Elem{{ID: "e", Params: []ref.Param{param("p", strings.Repeat(fill, n/len(fill))+strings.Repeat("x", n%len(fill)))}}}
				if k == 2 { // and more of them follow
					m.SD = append(m.SD, ref.Elem{ID: "f", Params: []ref.Param{param("q", "w")}})
				}
			case 3: // elements before others
				n -= head * x.Choose(2)
				one := ref.Elem{ID: "e", Params: []ref.Param{param("p", strings.Repeat(fill, 40))}}
				l := len(one.String())
				for ; n > 2*l; n -= l {
					m.SD = append(m.SD, one)
				}
				m.SD = append(m.SD, ref.Elem{ID: "f", Params: []ref.Param{param("q", strings.Repeat("x", n))}}, ref.Elem{ID: "g"})
			}
			return m
		})
	}
	numbers := around(41, 1100, 1, 1)
	if deep {
		numbers = around(41, 70000, 1, 1)
	}
	add("numerous", func(x *mc.X) *ref.Msg {
		m := baseline()
		n := numbers[x.Choose(len(numbers))]
		e := ref.Elem{ID: "e"}
		switch x.Choose(3) {
		case 0:
			for i := 0; i < n; i++ {
				e.Params = append(e.Params, param("p", "v"))
			}
			m.SD = []ref.Elem{e, {ID: "f"}}
		case 1:
			for i := 0; i < n; i++ {
				m.SD = append(m.SD, e)
			}
			m.SD = append(m.SD, ref.Elem{ID: "f"})
		case 2:
			m.SD = []ref.Elem{e}
			m.Text = strings.Repeat(" ", n)
		}
		m.HasText, m.Text = true, m.Text+"text"
		return m
	})
	add("text-lengths", func(x *mc.X) *ref.Msg {
		m := baseline()
		m.SD = someSD(x)
		m.HasText = true
		m.Text = strings.Repeat(pick(x, []string{"a", " ", "]", `"`}), x.Choose(600))
		return m
	})
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func someSD(x *mc.X) []ref.Elem {
	sh := shapes()
	switch x.Choose(5) {
	case 0:
		return nil
	case 1:
		return []ref.Elem{sh[0]}
	case 2:
		return []ref.Elem{sh[3]}
	case 3:
		return []ref.Elem{sh[2], sh[0]}
	}
	return []ref.Elem{sh[7]}
}

// text chooses no text or a text of up to n tokens.
func text(x *mc.X, m *ref.Msg, tokens []string, n int) {
	if x.Choose(2) == 1 {
		m.HasText = true
		m.Text = str(x, tokens, 0, n)
	}
}

// variants are messages each of which differs from the baseline in one part.
func variants(deep bool) (l []*ref.Msg) {
	add := func(f func(m *ref.Msg)) {
		m := baseline()
		f(m)
		l = append(l, m)
	}
	add(func(m *ref.Msg) {})
	for _, t := range []string{"2003-10-11T22:14:15", "2003-10-11T22:14:16", "2003-10-11T22:15:15", "2003-10-11T23:14:15", "2003-10-12T22:14:15", "2003-11-11T22:14:15", "2004-10-11T22:14:15"} {
		for _, f := range []string{"", ".003", ".004", ".3", ".000003"} {
			for _, z := range []string{"Z", "+05:00", "+05:30", "-05:00", "-05:30", "-06:00"} {
				if t != "2003-10-11T22:14:15" && (f != "" && f != ".003" || z != "Z" && z != "+05:30") && !deep {
					continue
				}
				add(func(m *ref.Msg) { m.TS = t + f + z })
			}
		}
	}
	add(func(m *ref.Msg) { m.TS = "-" })
	names := []string{"-", "a", "A", "aa", "b", "a1", "a/b", "[a]", strings.Repeat("n", 32)}
	for _, n := range names {
		add(func(m *ref.Msg) { m.Host = n })
		add(func(m *ref.Msg) { m.App = n })
		add(func(m *ref.Msg) { m.Proc = n })
		add(func(m *ref.Msg) { m.MsgID = n })
		add(func(m *ref.Msg) { m.App, m.MsgID = n, n })
	}
	for _, p := range []int{0, 1, 8, 13, 164, 166, 191} {
		add(func(m *ref.Msg) { m.Pri = p })
	}
	for _, t := range []string{"", "a", "b", "A", " a", "a b", "-", "[a]", `"\]`, "\xef\xbb\xbfa"} {
		add(func(m *ref.Msg) { m.HasText, m.Text = true, t })
	}
	for _, e := range shapes() {
		add(func(m *ref.Msg) { m.SD = []ref.Elem{e} })
		add(func(m *ref.Msg) { m.SD = []ref.Elem{e, {ID: "x@1"}} })
		add(func(m *ref.Msg) { m.SD = []ref.Elem{{ID: "x@1"}, e} })
		add(func(m *ref.Msg) { m.SD, m.HasText, m.Text = []ref.Elem{e}, true, "text" })
	}
	return
}
