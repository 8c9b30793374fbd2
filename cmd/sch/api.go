package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif/mc"
	"verif/vs"
)

type apiSD struct {
	Key string
	N   []int
}

func (apiSD) String() string { return "sd@32473" }
func (apiSD) IsIANA() bool   { return false }
func (apiSD) GetPEN() uint64 { return 32473 }

// world is what the goroutines of a scenario share.
type world struct {
	q    *srun
	s    *syslog5424.Sender
	sl   *syslog5424.Syslog
	sub  *syslog5424.Syslog
	ch   syslog5424.Channel
	id   syslog5424.Channel
	app  syslog5424.Channel
	null syslog5424.Channel
	base syslog5424.Message
	list sdata.List
	sd   sdata.StructuredData
	tick chan time.Time
	bad  string
}

type apiOp struct {
	name string
	run  func(w *world) bool
	want []string // messages
}

const stamp = "2003-10-11T22:14:15.000001Z"

func line(pri int, app, msgid, sd, text string) string {
	s := fmt.Sprintf("<%d>1 %s localhost %s 1234 %s %s", pri, stamp, app, msgid, sd)
	if text != "" {
		s += " " + text
	}
	return s
}

// tq is how a time quality is encoded alone (C21 judges that).
func tq(t timequality.TimeQuality) string {
	b, err := t.Marshal5424()
	if err != nil {
		mc.Broken("%v", err)
	}
	return string(b)
}

const apiElem = `[sd@32473 Key="v\"" N="1" N="2"]`

var apiOps = []apiOp{
	{"first-use", func(w *world) bool { c := w.sl.Channel(syslog5424.LogERR); c.Log("x"); return !c.IsDevNull() }, []string{line(11, "app", "-", "-", "x")}},
	{"first-use-write", func(w *world) bool {
		c := w.sl.Channel(syslog5424.LogEMERG)
		n, err := c.Write([]byte("em\n"))
		return n == 3 && err == nil
	}, []string{line(8, "app", "-", "-", "em")}},
	{"first-use-dead", func(w *world) bool {
		c := w.sl.Channel(syslog5424.LogDEBUG)
		c.Log("never")
		n, err := c.AppName("z").Msgid("y").Write([]byte("never"))
		return c.IsDevNull() && n == 5 && err == nil
	}, nil},
	{"sub", func(w *world) bool {
		c := w.sl.SubSyslog("two").Channel(syslog5424.LogWARNING)
		c.Log("s")
		return !c.IsDevNull()
	}, []string{line(12, "app/two", "-", "-", "s")}},
	{"shared-sub", func(w *world) bool {
		c := w.sub.Channel(syslog5424.LogERR)
		c.Log("ss")
		return !c.IsDevNull() && w.sub.Channel(syslog5424.LogINFO).IsDevNull()
	}, []string{line(11, "app/sub", "-", "-", "ss")}},
	{"log", func(w *world) bool { w.ch.Log("text \n"); return true }, []string{line(12, "app", "-", "-", "text")}},
	{"log-sd", func(w *world) bool { w.ch.Log("", w.sd, timequality.TimeQuality{}, w.sd); return true },
		[]string{line(12, "app", "-", apiElem+tq(timequality.TimeQuality{})+apiElem, "")}},
	{"write", func(w *world) bool {
		b := []byte("wr")
		n, err := w.ch.Write(b)
		b[0], b[1] = '#', '#'
		return n == 2 && err == nil
	}, []string{line(12, "app", "-", "-", "wr")}},
	{"appname", func(w *world) bool { c := w.ch.AppName("n1"); c.Log("a"); return !c.IsDevNull() }, []string{line(12, "app/n1", "-", "-", "a")}},
	{"msgid", func(w *world) bool { c := w.ch.Msgid("i1"); c.Log("i"); return !c.IsDevNull() }, []string{line(12, "app", "i1", "-", "i")}},
	{"derived-msgid", func(w *world) bool { w.id.Msgid("i2").Log("d"); w.id.Log("d2"); return true }, []string{line(12, "app", "i2", "-", "d"), line(12, "app", "id", "-", "d2")}},
	{"derived-app", func(w *world) bool { w.id.AppName("n2").Log("e"); w.app.Log("e2"); return true }, []string{line(12, "app/n2", "id", "-", "e"), line(12, "app/n", "-", "-", "e2")}},
	{"logger", func(w *world) bool { w.id.Logger("p:").Print("pr"); return true }, []string{line(12, "app", "id", "-", "p:pr")}},
	{"devnull", func(w *world) bool {
		w.null.Logger("p").Print("x")
		w.null.Log("x", w.sd)
		return w.null.Msgid("x").IsDevNull()
	}, nil},
	{"send", func(w *world) bool { return w.s.Send(w.base.Msg("m").AppName("o").StructuredData(w.sd)) == nil },
		[]string{line(13, "o", "b", tq(timequality.TimeQuality{TzKnown: true})+apiElem, "m")}},
	{"send-base", func(w *world) bool {
		return w.s.Send(w.base.Priority(1).MsgID("c")) == nil && w.base.String() == line(13, "app", "b", tq(timequality.TimeQuality{TzKnown: true}), "base")
	},
		[]string{line(1, "app", "c", tq(timequality.TimeQuality{TzKnown: true}), "base")}},
	{"list", func(w *world) bool {
		l := w.list.Add(timequality.TimeQuality{TzKnown: true, IsSynced: true})
		b, err := l.Marshal5424()
		return err == nil && string(b) == apiElem+apiElem+tq(timequality.TimeQuality{TzKnown: true, IsSynced: true})
	}, nil},
	{"list2", func(w *world) bool {
		l := w.list.Add(w.sd)
		b, err := l.Marshal5424()
		return err == nil && string(b) == apiElem+apiElem+apiElem
	}, nil},
	{"tick", func(w *world) bool { vs.SendTo(w.tick)(time.Time{}); return true }, nil},
}

func apiUnit(preempt int, ops ...[]int) mc.Unit {
	var names []string
	for _, l := range ops {
		var s []string
		for _, o := range l {
			s = append(s, apiOps[o].name)
		}
		names = append(names, strings.Join(s, "+"))
	}
	return apiRun(strings.Join(names, "|"), vs.Cfg{Preempt: preempt, MaxSteps: 20000}, ops)
}

// apiCrowd: n goroutines that make every operation, each beginning with another one, along two schedules.
func apiCrowd(n int) (u []mc.Unit) {
	var ops [][]int
	for g := 0; g < n; g++ {
		var mine []int
		for i := range apiOps {
			mine = append(mine, (i+g)%len(apiOps))
		}
		ops = append(ops, mine)
	}
	for _, mode := range []int{1, 2} {
		u = append(u, apiRun(fmt.Sprintf("crowd-%d-%d", n, mode), vs.Cfg{Preempt: 0, Serial: mode, Lazy: true, MaxSteps: 2000000}, ops))
	}
	return
}

func apiRun(name string, cfg vs.Cfg, ops [][]int) mc.Unit {
	var w *world
	start := time.Date(2003, 10, 11, 22, 14, 15, 1999, time.UTC)
	cfg.Start = start
	return unit(name, cfg, func() {
		w = &world{q: &srun{d: &dest{}}, tick: make(chan time.Time)}
		v := w
		v.s, _ = syslog5424.NewSender(v.q.d, syslog5424.TransportLFEnded, v.tick)
		sl, err := syslog5424.New(v.s, syslog5424.LogUSER|syslog5424.LogWARNING, "app")
		if err != nil {
			mc.Broken("%v", err)
		}
		sl.TestMode()
		v.sl = sl
		other, err := syslog5424.New(v.s, syslog5424.LogUSER|syslog5424.LogWARNING, "app")
		if err != nil {
			mc.Broken("%v", err)
		}
		other.TestMode()
		v.sub = other.SubSyslog("sub")
		v.ch = other.Channel(syslog5424.LogWARNING)
		v.id = v.ch.Msgid("id")
		v.app = v.ch.AppName("n")
		v.null = other.Channel(syslog5424.LogDEBUG)
		v.sd = syslog5424.GenericSD(apiSD{`v"`, []int{1, 2}})
		v.list = sdata.EmptyList().Add(v.sd).Add(v.sd)
		v.base = syslog5424.CreateWholeMessage(13, start, "localhost", "app", "1234", "b", "base").StructuredData(timequality.TimeQuality{TzKnown: true})
		joined := make(chan int, 8)
		for k := range ops {
			mine := ops[k]
			vs.GoH("user", func() {
				ok := true
				for _, o := range mine {
					if !apiOps[o].run(v) {
						ok = false
					}
				}
				if ok {
					vs.SendTo(joined)(0)
				} else {
					vs.SendTo(joined)(1)
				}
			})
		}
		for range ops {
			if vs.Recv(joined) == 1 {
				v.bad = "a call does not give what it gives alone"
			}
		}
		v.s.End()
		vs.WaitIdle()
	}, func(o *vs.Outcome) string {
		if msg := settled(o); msg != "" {
			return msg
		}
		if w.bad != "" {
			return w.bad
		}
		got := ""
		for _, c := range w.q.d.conns {
			got += string(c.b)
		}
		g := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
		if got == "" {
			g = nil
		}
		var want []string
		for _, l := range ops {
			at := -1
			for _, o := range l {
				for _, m := range apiOps[o].want {
					want = append(want, m)
					// in the order of the goroutine
					for i := 0; i < len(g); i++ {
						if g[i] == m && (i > at || i == len(g)-1) {
							if i < at {
								return fmt.Sprintf("%q is written too early: %q", m, got)
							}
							at = i
							break
						}
					}
				}
			}
		}
		sort.Strings(g)
		sort.Strings(want)
		if strings.Join(g, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("written: %q\nwanted: %q", g, want)
		}
		return ""
	})
}

func init() {
	reg(&mc.Property{ID: "C06", Assume: append([]string{"a standard logger is used by one goroutine at a time (its own lock is not explored)"}, trust...),
		Bounds: func(deep bool) string {
			s := fmt.Sprintf("%d operations of the client API on one shared Syslog, its sub-syslogs, channels, messages and lists: every pair of operations in two goroutines, in all interleavings; every triple in three goroutines with at most 2 preemptions; 2 to 130 (thorough 300) goroutines that make all operations, each beginning with another one (two schedules each)", len(apiOps))
			if deep {
				return s + ", triples of the first 9 in all interleavings; two goroutines of two operations each (at most 3 preemptions); four goroutines with one of the operations of first use each (at most 2 preemptions)"
			}
			return s
		},
		Units: func(deep bool) (u []mc.Unit) {
			n := len(apiOps)
			most := 130
			if deep {
				most = 300
			}
			for _, k := range around(2, most, 1, 1) {
				u = append(u, apiCrowd(k)...)
			}
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					u = append(u, apiUnit(-1, []int{i}, []int{j}))
				}
			}
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					for k := j; k < n; k++ {
						p := 2
						if deep && k < 9 {
							p = -1
						}
						u = append(u, apiUnit(p, []int{i}, []int{j}, []int{k}))
					}
				}
			}
			if deep {
				for i := 0; i < n; i++ {
					for j := i; j < n; j++ {
						for k := 0; k < n; k++ {
							u = append(u, apiUnit(3, []int{i, k}, []int{j, (k + i + 1) % n}))
						}
					}
				}
				for i := 0; i < 6; i++ {
					for j := i; j < 6; j++ {
						for k := j; k < 6; k++ {
							u = append(u, apiUnit(2, []int{i}, []int{j}, []int{k}, []int{0}))
						}
					}
				}
			}
			return
		}})
}
