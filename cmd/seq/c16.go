package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/mc"
	"verif/ref"
)

// kinds of structured data that are added
type valueSD struct {
	K string
	L []string
}

func (valueSD) String() string { return "v@32473" }
func (valueSD) IsIANA() bool   { return false }
func (valueSD) GetPEN() uint64 { return 32473 }

func parsedSD(s string) sdata.StructuredData {
	sd, ok := sdata.Parse([]byte(s))
	if !ok {
		mc.Broken("%s is refused", s)
	}
	return sd
}

type sdOf struct {
	sd  sdata.StructuredData
	enc string
}

var sds16 = []sdOf{
	{timequality.TimeQuality{TzKnown: true}, `[timeQuality tzKnown="1"]`},
	{sdata.GenericSD(valueSD{K: "k", L: []string{"1", "2"}}), `[v@32473 K="k" L="1" L="2"]`},
	{parsedSD(`[u@1 a="b" c="\""]`), `[u@1 a="b" c="\""]`},
	{parsedSD(`[w@2]`), `[w@2]`},
}

// node is a message and what it must always say.
type node struct {
	m  syslog5424.Message
	w  model16
	by string
}

// model16 is a message as a value.
type model16 struct {
	pri                          int
	ts, host, app, proc, id, txt string
	sd                           []string
}

func (w model16) String() string {
	sd := "-"
	if len(w.sd) > 0 {
		sd = strings.Join(w.sd, "")
	}
	s := "<" + strconv.Itoa(w.pri) + ">1 " + w.ts + " " + w.host + " " + w.app + " " + w.proc + " " + w.id + " " + sd
	if w.txt != "" {
		s += " " + w.txt
	}
	return s
}

func (w model16) with(sd ...string) model16 {
	w.sd = append(append([]string{}, w.sd...), sd...)
	return w
}

// local is what the local host is called.
var local = func() string {
	r, err := ref.Parse([]byte(syslog5424.CreateWholeMessage(1, tsFixed, "h", "a", "p", "i", "").LocalHost().String()), 255)
	if err != nil {
		mc.Broken("%v", err)
	}
	return r.Host
}()

type setter struct {
	name string
	do   func(m syslog5424.Message) syslog5424.Message
	on   func(w model16) model16
}

var setters = []setter{
	{"StructuredData(a)", func(m syslog5424.Message) syslog5424.Message { return m.StructuredData(sds16[0].sd) }, func(w model16) model16 { return w.with(sds16[0].enc) }},
	{"StructuredData(b, c)", func(m syslog5424.Message) syslog5424.Message { return m.StructuredData(sds16[1].sd, sds16[2].sd) }, func(w model16) model16 { return w.with(sds16[1].enc, sds16[2].enc) }},
	{"StructuredData(slice), then the slice is changed", func(m syslog5424.Message) syslog5424.Message {
		l := []sdata.StructuredData{sds16[3].sd, sds16[0].sd, nil}[:2]
		n := m.StructuredData(l...)
		l[0], l[1] = sds16[1].sd, sds16[1].sd
		_ = append(l, sds16[2].sd)
		return n
	}, func(w model16) model16 { return w.with(sds16[3].enc, sds16[0].enc) }},
	{"StructuredData()", func(m syslog5424.Message) syslog5424.Message { return m.StructuredData() }, func(w model16) model16 { return w }},
	{"Msg", func(m syslog5424.Message) syslog5424.Message { return m.Msg("other text") }, func(w model16) model16 { w.txt = "other text"; return w }},
	{"encoding is overwritten", func(m syslog5424.Message) syslog5424.Message {
		b, _ := m.Marshal5424()
		overwrite(b)
		return m
	}, func(w model16) model16 { return w }},
	{"Timestamp", func(m syslog5424.Message) syslog5424.Message { return m.Timestamp("Feb  3 04:05:06").Time(tsFixed) }, func(w model16) model16 { w.ts = "2003-10-11T22:14:15.003Z"; return w }},
	{"Delta", func(m syslog5424.Message) syslog5424.Message { return m.Delta(time.Unix(0, 0).UTC(), "86400", "1000") }, func(w model16) model16 { w.ts = "1970-01-02T00:00:00.000001Z"; return w }},
	{"Epoch", func(m syslog5424.Message) syslog5424.Message { return m.Epoch("1", "0") }, func(w model16) model16 { w.ts = "1970-01-01T00:00:01Z"; return w }},
	{"Time", func(m syslog5424.Message) syslog5424.Message { return m.Now().Time(tsFixed.Add(time.Second)) }, func(w model16) model16 { w.ts = "2003-10-11T22:14:16.003Z"; return w }},
	{"Host", func(m syslog5424.Message) syslog5424.Message { return m.Host("x host") }, func(w model16) model16 { w.host = "x%host"; return w }},
	{"LocalHost", func(m syslog5424.Message) syslog5424.Message { return m.LocalHost() }, func(w model16) model16 { w.host = local; return w }},
	{"AppName", func(m syslog5424.Message) syslog5424.Message { return m.AppName("x app") }, func(w model16) model16 { w.app = "x%app"; return w }},
	{"ProcID", func(m syslog5424.Message) syslog5424.Message { return m.ProcID("") }, func(w model16) model16 { w.proc = "-"; return w }},
	{"MsgID", func(m syslog5424.Message) syslog5424.Message { return m.MsgID("x\nid") }, func(w model16) model16 { w.id = "x%id"; return w }},
	{"Priority", func(m syslog5424.Message) syslog5424.Message { return m.Priority(191) }, func(w model16) model16 { w.pri = 191; return w }},
}

func overwrite(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '#'
	}
}

// roots are messages to begin with; the buffer a message was parsed from is overwritten.
func roots(k int) node {
	w := model16{13, "2003-10-11T22:14:15.003Z", "h", "a", "p", "i", "t", nil}
	whole := syslog5424.CreateWholeMessage(13, tsFixed, "h", "a", "p", "i", "t")
	switch k {
	case 0:
		return node{m: whole, w: w}
	case 1:
		return node{m: syslog5424.EmptyMessage().Time(tsFixed), w: model16{0, w.ts, "-", "-", "-", "-", "", nil}}
	case 2:
		w.sd = []string{`[u@1 a="b"]`, `[timeQuality]`}
		b := []byte(w.String())
		m, _, err := syslog5424.Parse(b, nil, true)
		if err != nil {
			mc.Broken("%v", err)
		}
		n := node{m: m.Writable(), w: w}
		overwrite(b)
		return n
	case 3:
		b := []byte(w.String())
		m, _, err := syslog5424.Parse(b, nil, true)
		if err != nil {
			mc.Broken("%v", err)
		}
		n := node{m: m.Writable(), w: w}
		overwrite(b)
		return n
	default:
		return node{m: whole.StructuredData(sds16[0].sd, sds16[1].sd, sds16[2].sd), w: w.with(sds16[0].enc, sds16[1].enc, sds16[2].enc)}
	}
}

const numRoots = 5

// growTree derives messages from any earlier one and checks all of them after every step.
func growTree(c *mc.C, x *mc.X, ops []setter, depth int) {
	nodes := []node{roots(x.Choose(numRoots))}
	all := func() {
		for i, n := range nodes {
			if g := n.m.String(); g != n.w.String() {
				l := ""
				for k, n := range nodes {
					l += fmt.Sprintf("\n  %d: %s", k, n.by)
				}
				x.Fail("message %d is %q, it must be %q; how the messages were made:%s", i, g, n.w, l)
			}
		}
	}
	all()
	for d := 0; d < depth; d++ {
		p := x.Choose(len(nodes))
		o := ops[x.Choose(len(ops))]
		nodes = append(nodes, node{o.do(nodes[p].m), o.on(nodes[p].w), fmt.Sprintf("%s of %d", o.name, p)})
		all()
	}
	if c.WantSample() {
		s := ""
		for _, n := range nodes[1:] {
			s += n.by + "; "
		}
		c.Sample("%s", s)
	}
}

// lists: the same for lists of structured data.
type lnode struct {
	l    sdata.List
	want []string
	by   string
}

func growLists(c *mc.C, x *mc.X, root, depth int) {
	var nodes []lnode
	first := []string{sds16[0].enc, sds16[2].enc}
	switch root {
	case 0:
		nodes = append(nodes, lnode{l: sdata.EmptyList()})
	case 1:
		nodes = append(nodes, lnode{l: nil})
	case 2: // with spare places
		l := make(sdata.List, 2, 8)
		l[0], l[1] = sds16[0].sd, sds16[2].sd
		nodes = append(nodes, lnode{l: l, want: first})
	case 3:
		l := sdata.List{sds16[0].sd, sds16[2].sd, sds16[1].sd}
		nodes = append(nodes, lnode{l: l[:2], want: first}, lnode{l: l, want: append(append([]string{}, first...), sds16[1].enc)})
	case 4:
		m, _, err := syslog5424.Parse([]byte(`<13>1 - - - - - `+first[0]+first[1]), nil, true)
		if err != nil {
			mc.Broken("%v", err)
		}
		nodes = append(nodes, lnode{l: m.StructuredData(), want: first})
	}
	all := func() {
		for i, n := range nodes {
			w := strings.Join(n.want, "")
			if w == "" {
				w = "-"
			}
			b, err := n.l.Marshal5424()
			if err != nil || string(b) != w || n.l.String() != w || len(n.l) != len(n.want) {
				l := ""
				for k, n := range nodes {
					l += fmt.Sprintf("\n  %d: %s", k, n.by)
				}
				x.Fail("list %d is %q (%v), it must be %q; how the lists were made:%s", i, b, err, w, l)
			}
			overwrite(b)
		}
	}
	all()
	for d := 0; d < depth; d++ {
		p := x.Choose(len(nodes))
		n := nodes[p]
		switch x.Choose(6) {
		case 0:
			n.l, n.by = n.l.Add(sds16[0].sd), "Add(a)"
			n.want = append(n.want[:len(n.want):len(n.want)], sds16[0].enc)
		case 1:
			n.l, n.by = n.l.Add(sds16[1].sd), "Add(b)"
			n.want = append(n.want[:len(n.want):len(n.want)], sds16[1].enc)
		case 2:
			n.l, n.by = n.l.Add(sds16[2].sd, sds16[3].sd), "Add(c, d)"
			n.want = append(n.want[:len(n.want):len(n.want)], sds16[2].enc, sds16[3].enc)
		case 3:
			n.l, n.by = n.l.Add(), "Add()"
		case 4:
			s := make([]sdata.StructuredData, 2, 6)
			s[0], s[1] = sds16[1].sd, sds16[2].sd
			n.l, n.by = n.l.Add(s...), "Add(slice), then the slice is changed"
			n.want = append(n.want[:len(n.want):len(n.want)], sds16[1].enc, sds16[2].enc)
			s[0], s[1] = sds16[3].sd, sds16[3].sd
			_ = append(s, sds16[0].sd)
		case 5: // a message of it
			m := syslog5424.CreateWholeMessage(1, tsFixed, "h", "a", "p", "i", "").StructuredData(n.l...)
			w := m.String()
			_ = m.StructuredData(sds16[3].sd)
			if g := m.String(); g != w {
				x.Fail("the message %q became %q", w, g)
			}
			n.by = "used in a message"
		}
		n.by += fmt.Sprintf(" of %d", p)
		nodes = append(nodes, n)
		all()
	}
	if c.WantSample() {
		s := ""
		for _, n := range nodes[1:] {
			s += n.by + "; "
		}
		c.Sample("%s", s)
	}
}

// longLists: two lists and messages derived from one of some length.
func longLists(x *mc.X, lens []int) {
	n := lens[x.Choose(len(lens))]
	made := x.Choose(5)
	var l sdata.List
	var all []sdata.StructuredData
	want := ""
	for i := 0; i < n; i++ {
		all = append(all, sds16[i%4].sd)
		want += sds16[i%4].enc
	}
	dash := func(s string) string {
		if s == "" {
			return "-"
		}
		return s
	}
	switch made {
	case 0: // one by one
		l = sdata.EmptyList()
		for _, sd := range all {
			l = l.Add(sd)
		}
	case 1: // at once
		l = sdata.EmptyList().Add(all...)
	case 2: // with spare places
		l = append(make(sdata.List, 0, 2*n+3), all...)
	case 3, 4: // read
		b := []byte("<13>1 - - - - - " + dash(want))
		m, _, err := syslog5424.Parse(b, nil, true)
		if err != nil {
			mc.Broken("%v", err)
		}
		l = m.StructuredData()
		if made == 4 {
			l = l.Add(sds16[3].sd)
			want += sds16[3].enc
		}
		overwrite(b)
	}
	base := syslog5424.CreateWholeMessage(13, tsFixed, "h", "a", "p", "i", "t").StructuredData(l...)
	const head = "<13>1 2003-10-11T22:14:15.003Z h a p i "
	k := []int{0, 1, 2, 3, 100}
	type pair struct {
		l   sdata.List
		m   syslog5424.Message
		enc string
	}
	derived := []pair{{l, base, want}}
	for d := 0; d < 2; d++ {
		p := derived[0]
		for i := k[x.Choose(len(k))]; i > 0; i-- {
			e := sds16[(i+d)%4]
			p = pair{p.l.Add(e.sd), p.m.StructuredData(e.sd), p.enc + e.enc}
		}
		derived = append(derived, p)
		for i := range all { // the caller's slice is its own
			if made == 1 {
				all[i] = sds16[3].sd
			}
		}
	}
	for i, p := range derived {
		if g := p.l.String(); g != dash(p.enc) {
			x.Fail("list %d derived from one of %d elements (made in way %d) is %s, wanted %s", i, n, made, short(g), short(p.enc))
		}
		if g := p.m.String(); g != head+dash(p.enc)+" t" {
			x.Fail("message %d derived from one of %d elements (made in way %d) is %s, wanted %s", i, n, made, short(g), short(p.enc))
		}
	}
}

// memory is a connection that keeps what is written.
type memory struct {
	mu sync.Mutex
	b  []byte
}

func (m *memory) Write(p []byte) (int, error) {
	m.mu.Lock()
	m.b = append(m.b, p...)
	m.mu.Unlock()
	return len(p), nil
}
func (m *memory) Close() error                             { return nil }
func (m *memory) Connect() (syslog5424.WriteCloser, error) { return m, nil }
func (m *memory) messages(t syslog5424.Transport) (l []string) {
	for b := m.b; len(b) > 0; {
		d, rest, err := t.PrefixStrip(b, true)
		if err != nil || rest == nil {
			return append(l, string(b))
		}
		l = append(l, string(d))
		b = rest
	}
	return
}

// cnode is a channel and what it says.
type cnode struct {
	c       syslog5424.Channel
	app, id string
}

func growChannels(c *mc.C, x *mc.X, depth int) {
	mem := &memory{}
	s, _ := syslog5424.NewSender(mem, syslog5424.TransportRFC5425, make(chan time.Time))
	now := syslog5424.Now
	syslog5424.Now = func() time.Time { return tsFixed }
	defer func() { syslog5424.Now = now }()
	sl, err := syslog5424.New(s, syslog5424.LogUSER|syslog5424.LogERR, "app")
	if err != nil {
		mc.Broken("%v", err)
	}
	sl.TestMode()
	nodes := []cnode{{sl.Channel(syslog5424.LogERR), "app", "-"}}
	how := ""
	for d := 0; d < depth; d++ {
		p := x.Choose(len(nodes))
		n := nodes[p]
		switch x.Choose(5) {
		case 0:
			n.c, n.app = n.c.AppName("x"), n.app+"/x"
			how += fmt.Sprintf("AppName(x) of %d; ", p)
		case 1:
			n.c, n.app = n.c.AppName("y"), n.app+"/y"
			how += fmt.Sprintf("AppName(y) of %d; ", p)
		case 2:
			n.c, n.id = n.c.Msgid("i"), "i"
			how += fmt.Sprintf("Msgid(i) of %d; ", p)
		case 3:
			n.c, n.id = n.c.Msgid("j"), "j"
			how += fmt.Sprintf("Msgid(j) of %d; ", p)
		case 4:
			sub := sl.SubSyslog("s" + strconv.Itoa(d))
			n = cnode{sub.Channel(syslog5424.LogERR), "app/s" + strconv.Itoa(d), "-"}
			how += fmt.Sprintf("SubSyslog(s%d); ", d)
		}
		nodes = append(nodes, n)
	}
	var want []string
	// everything speaks after everything was derived; what was given is overwritten at once
	for i := range nodes {
		n := nodes[len(nodes)-1-i]
		line := "<11>1 2003-10-11T22:14:15.003Z localhost " + n.app + " 1234 " + n.id + " "
		buf := []byte("line " + strconv.Itoa(i) + "\n")
		n.c.Write(buf)
		overwrite(buf)
		want = append(want, line+"- line "+strconv.Itoa(i))
		l := []sdata.StructuredData{sds16[2].sd, sds16[3].sd}
		n.c.Log("log", l...)
		l[0], l[1] = sds16[0].sd, nil
		want = append(want, line+sds16[2].enc+sds16[3].enc+" log")
		if i%2 == 0 {
			lg := n.c.Logger("p:")
			lg.Print("one")
			lg.Print("two")
			want = append(want, line+"- p:one", line+"- p:two")
		}
	}
	// the original channel of the Syslog too
	sl.Channel(syslog5424.LogERR).Log("root")
	want = append(want, "<11>1 2003-10-11T22:14:15.003Z localhost app 1234 - - root")
	s.End()
	got := mem.messages(syslog5424.TransportRFC5425)
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			x.Fail("message %d is %q, wanted %q; channels: %s", i, g, want[i], how)
		}
	}
	if len(got) != len(want) {
		x.Fail("%d messages, wanted %d", len(got), len(want))
	}
	if c.WantSample() {
		c.Sample("%s", how)
	}
}

// queued: what is given to a sender and changed before it is written.
func queued(c *mc.C, x *mc.X, depth int) {
	mem := &memory{}
	t := []syslog5424.Transport{syslog5424.TransportRFC5425, syslog5424.TransportRFC5425}[0]
	s, _ := syslog5424.NewSender(mem, t, make(chan time.Time))
	sl, _ := syslog5424.New(s, syslog5424.LogUSER|syslog5424.LogERR, "app")
	sl.TestMode()
	now := syslog5424.Now
	syslog5424.Now = func() time.Time { return tsFixed }
	defer func() { syslog5424.Now = now }()
	ch := sl.Channel(syslog5424.LogERR).Msgid("i")
	head := "<11>1 2003-10-11T22:14:15.003Z localhost app 1234 i "
	buf := make([]byte, 64) // one buffer for all lines
	var want []string
	base := syslog5424.CreateWholeMessage(13, tsFixed, "h", "a", "p", "i", "t").StructuredData(sds16[0].sd)
	w := model16{13, "2003-10-11T22:14:15.003Z", "h", "a", "p", "i", "t", []string{sds16[0].enc}}
	for d := 0; d < depth; d++ {
		n := strconv.Itoa(d)
		switch x.Choose(7) {
		case 0:
			k := copy(buf, "short "+n)
			ch.Write(buf[:k])
			want = append(want, head+"- short "+n)
		case 1:
			k := copy(buf, "a much longer line of text "+n)
			ch.Write(buf[:k])
			want = append(want, head+"- a much longer line of text "+n)
		case 2:
			k := copy(buf, "trimmed "+n+"\n\n \n")
			ch.Write(buf[:k])
			want = append(want, head+"- trimmed "+n)
		case 3:
			s.Send(base)
			want = append(want, w.String())
			base = base.Msg("u" + n).StructuredData(sds16[2].sd)
			w = w.with(sds16[2].enc)
			w.txt = "u" + n
		case 4:
			b, _ := base.Marshal5424()
			s.Send(base)
			overwrite(b)
			b, _ = base.Marshal5424()
			overwrite(b)
			want = append(want, w.String())
		case 5:
			l := make([]sdata.StructuredData, 1, 4)
			l[0] = sds16[1].sd
			ch.Log("l"+n, l...)
			ch.Log("m"+n, append(l, sds16[2].sd)...)
			l[0] = sds16[3].sd
			want = append(want, head+sds16[1].enc+" l"+n, head+sds16[1].enc+sds16[2].enc+" m"+n)
		case 6: // relayed from a buffer that is used again
			k := copy(buf, "<14>1 - h a p i [u@1] relayed")
			m, _, err := syslog5424.Parse(buf[:k], nil, true)
			if err != nil {
				mc.Broken("%v", err)
			}
			s.Send(m.Writable())
			want = append(want, "<14>1 - h a p i [u@1] relayed")
		}
		overwrite(buf)
	}
	s.End()
	got := mem.messages(t)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		x.Fail("written: %q\nwanted: %q", got, want)
	}
	if c.WantSample() {
		c.Sample("%q", got)
	}
}

// buffers: encodings that are overwritten by who received them, and inputs by who gave them.
func buffers(x *mc.X) {
	type enc struct {
		what string
		get  func() []byte
	}
	var encs []enc
	for i, s := range sds16 {
		s := s
		encs = append(encs, enc{fmt.Sprintf("structured data %d", i), func() []byte { b, _ := s.sd.Marshal5424(); return b }})
	}
	encs = append(encs,
		enc{"empty list", func() []byte { b, _ := sdata.EmptyList().Marshal5424(); return b }},
		enc{"nil list", func() []byte { b, _ := sdata.List(nil).Marshal5424(); return b }},
		enc{"list of one", func() []byte { b, _ := sdata.EmptyList().Add(sds16[0].sd).Marshal5424(); return b }},
		enc{"list as text", func() []byte { b, _ := sdata.EmptyList().Add(sds16[3].sd).MarshalText(); return b }},
		enc{"priority", func() []byte { b, _ := syslog5424.Priority(13).Marshal5424(); return b }},
		enc{"time quality", func() []byte { b, _ := timequality.TimeQuality{}.Marshal5424(); return b }},
		enc{"registered name", func() []byte { b, _ := timequality.TQ.MarshalText(); return b }},
		enc{"name", func() []byte { b, _ := sds16[1].sd.SDID().MarshalText(); return b }},
		enc{"MarshalSD", func() []byte { return sdata.MarshalSD(valueSD{K: "x"}) }},
		enc{"message", func() []byte {
			b, _ := syslog5424.EmptyMessage().Marshal5424()
			return b
		}},
		enc{"text of a message", func() []byte {
			b, _ := syslog5424.CreateWholeMessage(13, tsFixed, "h", "a", "p", "i", "t").Marshal5424()
			return b
		}})
	k := len(encs)
	payload := []byte("<13>1 - - - - - - payload")
	for _, t := range []syslog5424.Transport{syslog5424.TransportLFEnded, syslog5424.TransportZeroEnded, syslog5424.TransportRFC5425} {
		t := t
		encs = append(encs, enc{"frame of " + t.String(), func() []byte { return t.Encode(payload) }})
	}
	var want []string
	for _, e := range encs {
		want = append(want, string(e.get()))
	}
	a, b := x.Choose(len(encs)), x.Choose(len(encs))
	first, second := encs[a].get(), encs[b].get()
	kept := string(second)
	overwrite(first)
	if string(second) != kept {
		x.Fail("overwriting the encoding of %s changes that of %s to %q", encs[a].what, encs[b].what, second)
	}
	for i, e := range encs {
		if g := string(e.get()); g != want[i] {
			x.Fail("after overwriting the encoding of %s, the encoding of %s is %q instead of %q", encs[a].what, e.what, g, want[i])
		}
	}
	if string(payload) != "<13>1 - - - - - - payload" {
		x.Fail("overwriting a frame changes the payload to %q", payload)
	}
	// a frame does not change with the payload, even if the payload has room behind it
	if a >= k && b >= k {
		for spare := 0; spare < 3; spare++ {
			room := make([]byte, 40, 64)
			copy(room, payload)
			n := len(payload)
			copy(room[n:], "behind the payload")
			p := room[: n : n+spare*8]
			t := []syslog5424.Transport{syslog5424.TransportLFEnded, syslog5424.TransportZeroEnded, syslog5424.TransportRFC5425}[a-k]
			f := t.Encode(p)
			was := string(f)
			if was != want[a] || string(room[n:n+10]) != "behind the" {
				x.Fail("Encode gives %q and leaves %q behind the payload", f, room[n:])
			}
			overwrite(room)
			if string(f) != was {
				x.Fail("overwriting the payload changes its frame to %q", f)
			}
		}
	}
}

// received: messages of one buffer do not depend on the rest of it, and what is made of them not on the buffer.
func received(x *mc.X) {
	msgs := []string{`<13>1 2003-10-11T22:14:15Z h a p i [u@1 a="b"][timeQuality tzKnown="1"] text`, "<14>1 - host app proc id - other", "<15>1 - - - - - [w@2]"}
	i := x.Choose(len(msgs))
	b := []byte(msgs[i] + "\x00" + msgs[(i+1)%3] + "\x00")
	m, rest, err := syslog5424.Parse(b, syslog5424.TransportZeroEnded, false)
	if err != nil {
		x.Fail("%v", err)
	}
	overwrite(rest[:len(rest):len(rest)])
	if m.String() != msgs[i] {
		x.Fail("overwriting the rest changes the message to %q", m.String())
	}
	host, app, proc, id, txt, str := m.Hostname(), m.AppName(), m.ProcID(), m.MsgID(), m.Text(), m.String()
	sd := m.StructuredData()
	w := m.Writable()
	sds, ws := sd.String(), w.String()
	p, _ := ref.Parse([]byte(msgs[i]), 255)
	// reading a message does not change it
	if x.Choose(2) == 1 {
		wb, _ := w.Marshal5424()
		overwrite(wb)
		w.StructuredData(sds16[0].sd)
		_ = sd.Add(sds16[1].sd)
		w2 := w.Host("x").AppName("y").MsgID("z").Msg("q")
		_ = w2.String()
		if m.String() != msgs[i] || m.Writable().String() != ws || m.StructuredData().String() != sds {
			x.Fail("the message parsed changes to %q, %q", m.String(), m.Writable())
		}
	}
	overwrite(b)
	if host != p.Host || app != p.App || proc != p.Proc || id != p.MsgID || txt != p.Text || str != msgs[i] {
		x.Fail("overwriting the buffer changes strings taken from %q: %q %q %q %q %q %q", msgs[i], host, app, proc, id, txt, str)
	}
	if sd.String() != sds || w.String() != ws {
		x.Fail("overwriting the buffer changes the structured data %q to %q or the writable message %q to %q", sds, sd, ws, w)
	}
}

// decoded: what is decoded from the same bytes, more than once and in different ways, is independent of each other.
func decoded(x *mc.X) {
	accs := []int{0, 1, 2, 9, 10, 60, 127, 128, 255, 256, 1000, 1023, 1024, 65535, 1 << 20, 1 << 40, -1}
	acc := accs[x.Choose(len(accs))]
	raw := fmt.Sprintf(`[timeQuality tzKnown="1" isSynced="1" syncAccuracy="%d"]`, acc)
	line := "<13>1 - h a p i " + raw + `[u@1 a="b"] text`
	m, _, err := syslog5424.Parse([]byte(line), nil, true)
	if err != nil {
		x.Fail("%v", err)
	}
	m2, _, _ := syslog5424.Parse([]byte(line), nil, true)
	from := func(sd sdata.StructuredData, ok bool) sdata.StructuredData {
		if !ok || sd == nil {
			x.Fail("%s is refused", raw)
		}
		return sd
	}
	lists := []sdata.List{m.StructuredData(), m.StructuredData(), m2.StructuredData()}
	sds := []sdata.StructuredData{from(sdata.Parse([]byte(raw))), from(sdata.Parse([]byte(raw))), from(timequality.TQ.Found([]byte(raw)))}
	for _, l := range lists {
		if len(l) != 2 {
			x.Fail("%s has %d elements", line, len(l))
		}
		sds = append(sds, l[0])
	}
	w, w2 := m.Writable(), m2.Writable()
	// change one of them
	i := x.Choose(len(sds))
	if tq, ok := sds[i].(timequality.TimeQuality); ok && tq.SyncAccuracy != nil && x.Choose(2) == 0 {
		*tq.SyncAccuracy = 77
	} else if i >= 3 {
		lists[i-3][0] = sds16[3].sd
		lists[i-3][1] = sds16[3].sd
	}
	if w.String() != line || w2.String() != line {
		x.Fail("changing what was decoded from %s changes messages to %s, %s", line, w, w2)
	}
	for j, sd := range sds {
		if b, err := sd.Marshal5424(); j != i && (err != nil || string(b) != raw) {
			x.Fail("changing what was decoded (%d) from %s changes what was decoded otherwise (%d) to %s, %v", i, raw, j, b, err)
		}
	}
	for j, l := range lists {
		if j != i-3 && l.String() != raw+`[u@1 a="b"]` {
			x.Fail("changing a list (%d) decoded from %s changes another one (%d) to %s", i, line, j, l)
		}
	}
	if b, err := from(sdata.Parse([]byte(raw))).Marshal5424(); err != nil || string(b) != raw {
		x.Fail("changing what was decoded from %s makes the next decoding %s, %v", raw, b, err)
	}
	if w.String() != line || w2.String() != line || m.String() != line || m.Writable().String() != line {
		x.Fail("changing what was decoded from %s changes messages to %s, %s, %s, %s", line, w, w2, m, m.Writable())
	}
}

var c16 = &mc.Property{
	ID:     "C16",
	Assume: []string{"structured data given to the library is not changed by its owner before the message is sent or encoded"},
	Bounds: func(deep bool) string {
		a, b, l, ch := 3, 5, 4, 5
		if deep {
			a, b, l, ch = 4, 6, 5, 6
		}
		return fmt.Sprintf("trees of messages: %d derivations by 16 operations and %d by 6 (structured data, text, overwritten encodings), each from any earlier message, from 5 first messages, all compared with a model after every step; trees of %d lists by 6 operations from 5 first lists; lists of numbers of elements around the powers of 2 and 10 up to 300 (thorough 5000), made in 5 ways, from which two are derived; trees of %d channels by 5 operations, all used afterwards; sequences of %d of 7 calls on a sender with one reused buffer; all pairs of 18 kinds of encodings overwritten; time qualities of 17 accuracies decoded in 6 ways, one of them changed", a, b, l, ch, ch)
	},
	Units: func(deep bool) (u []mc.Unit) {
		a, b, l, ch := 3, 5, 4, 5
		if deep {
			a, b, l, ch = 4, 6, 5, 6
		}
		part := func(name string, f func(c *mc.C, x *mc.X)) {
			u = append(u, mc.Unit{Name: name, Run: func(c *mc.C) { c.Enumerate(func(x *mc.X) { f(c, x) }) }})
		}
		part("messages", func(c *mc.C, x *mc.X) { growTree(c, x, setters, a) })
		part("message-data", func(c *mc.C, x *mc.X) { growTree(c, x, setters[:6], b-1) })
		for i := range sds16[:3] {
			i := i
			part(fmt.Sprintf("message-data-%d", i), func(c *mc.C, x *mc.X) { growTree(c, x, setters[i:i+3], b) })
		}
		for i := 0; i < 5; i++ {
			i := i
			part(fmt.Sprintf("lists-%d", i), func(c *mc.C, x *mc.X) { growLists(c, x, i, l) })
		}
		lens := around(0, 300, 1, 1)
		if deep {
			lens = around(0, 5000, 1, 1)
		}
		part("long-lists", func(c *mc.C, x *mc.X) { longLists(x, lens) })
		part("channels", func(c *mc.C, x *mc.X) { growChannels(c, x, ch) })
		part("queued", func(c *mc.C, x *mc.X) { queued(c, x, ch) })
		part("encodings", func(c *mc.C, x *mc.X) { buffers(x) })
		part("received", func(c *mc.C, x *mc.X) { received(x) })
		part("decoded", func(c *mc.C, x *mc.X) { decoded(x) })
		return
	},
}
