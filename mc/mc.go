// Package mc runs the checks: it splits a property into units, explores each unit exhaustively in worker
// processes, confirms violations by replaying them in a new process and writes the evidence.
package mc

import (
	"fmt"
	"runtime/debug"
	"sync/atomic"
	"time"

	"verif/vs"
)

// Unit is a part of the bounded space of a property, explored by one worker.
type Unit struct {
	Name string
	Run  func(c *C)
}

// Property is what is checked under one id.
type Property struct {
	ID     string
	Units  func(thorough bool) []Unit
	Bounds func(thorough bool) string
	Assume []string
	Flaky  bool          // real sockets: a violation must show up in two confirmation runs out of three
	Hang   time.Duration // no progress for that long is a violation
	Jobs   int           // worker processes, 0: one per processor
}

// Failure is a violation found in a unit.
type Failure struct {
	Msg     string   `json:"message"`
	Index   int      `json:"exploration"` // index of the exploration in the unit
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace,omitempty"`
	Whole   bool     `json:"whole_unit,omitempty"`   // it depends on the cases before it
	Before  []int    `json:"units_before,omitempty"` // and on these units
}

// C collects the coverage of one unit.
type C struct {
	Unit        string
	States      int64
	Transitions int64
	Traces      int64
	Executions  int64
	Incomplete  bool
	Samples     []string
	Thorough    bool
	Deadline    time.Time
	Known       []string

	index  int
	replay *Failure
}

type failed struct{ f *Failure }
type broken struct{ msg string }

// Broken ends the check with an error of the machinery.
func Broken(format string, a ...interface{}) { panic(broken{fmt.Sprintf(format, a...)}) }

var ticks atomic.Int64

// Tick tells the watchdog that something is going on.
func Tick() { ticks.Add(1) }

func progress() int64 { return ticks.Load() + vs.Progress() }

// Replaying tells whether this is a confirmation run.
func (c *C) Replaying() bool { return c.replay != nil }

// Sample records one explored case, if few are recorded yet.
func (c *C) Sample(format string, a ...interface{}) {
	if len(c.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.Samples = append(c.Samples, s)
	}
}

// WantSample tells whether Sample would record something.
func (c *C) WantSample() bool { return len(c.Samples) < 3 }

// Fail reports a violation outside an exploration.
func (c *C) Fail(format string, a ...interface{}) {
	panic(failed{&Failure{Msg: fmt.Sprintf(format, a...), Index: c.index}})
}

// X gives the choices of one trace of an exploration.
type X struct {
	c     *C
	stack []frame
	depth int
	limit int
	notes []string
}

type frame struct{ n, pick int }

// Choose returns a value below n; the exploration enumerates all of them.
func (x *X) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if x.depth < len(x.stack) {
		f := &x.stack[x.depth]
		if f.n < 0 && f.pick < n {
			f.n = n
		}
		if f.n != n {
			Broken("exploration %d of %s is not deterministic: choice %d has %d alternatives, had %d", x.c.index, x.c.Unit, x.depth, n, f.n)
		}
		x.depth++
		return f.pick
	}
	x.stack = append(x.stack, frame{n, 0})
	x.depth++
	x.c.States++
	x.c.Transitions++
	return 0
}

// Note adds a line to the trace shown with a violation.
func (x *X) Note(format string, a ...interface{}) {
	if x.c.replay != nil {
		x.notes = append(x.notes, fmt.Sprintf(format, a...))
	}
}

// Fail reports a violation in this trace.
func (x *X) Fail(format string, a ...interface{}) {
	panic(failed{&Failure{Msg: fmt.Sprintf(format, a...)}})
}

func (x *X) picks() []int {
	p := make([]int, len(x.stack))
	for i, f := range x.stack {
		p[i] = f.pick
	}
	return p
}

// Enumerate runs body once for every sequence of choices it can make. Panics in body are violations.
func (c *C) Enumerate(body func(x *X)) {
	idx := c.index
	c.index++
	x := &X{c: c}
	if c.replay != nil {
		if c.replay.Index != idx {
			return
		}
		for _, p := range c.replay.Choices {
			x.stack = append(x.stack, frame{-1, p})
		}
		f := c.one(x, idx, func() {
			rx := x
			rx.depth = 0
			body(rx)
		})
		if f != nil {
			f.Trace = x.notes
			panic(failed{f})
		}
		return
	}
	for {
		x.depth = 0
		Tick()
		if f := c.one(x, idx, func() { body(x) }); f != nil {
			panic(failed{f})
		}
		c.Traces++
		c.Executions++
		c.States++ // the state this trace ends in
		if !c.Deadline.IsZero() && c.Executions%64 == 0 && time.Now().After(c.Deadline) {
			c.Incomplete = true
			return
		}
		for len(x.stack) > 0 {
			t := &x.stack[len(x.stack)-1]
			if t.pick+1 < t.n {
				t.pick++
				c.Transitions++
				break
			}
			x.stack = x.stack[:len(x.stack)-1]
		}
		if len(x.stack) == 0 {
			return
		}
	}
}

func (c *C) one(x *X, idx int, body func()) (f *Failure) {
	defer func() {
		r := recover()
		switch v := r.(type) {
		case nil:
			return
		case broken:
			panic(r)
		case failed:
			f = v.f
		default:
			f = &Failure{Msg: fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
		}
		f.Index = idx
		f.Choices = x.picks()
	}()
	body()
	return nil
}

// Sched is one exploration of the schedules of a scenario.
type Sched struct {
	Cfg   vs.Cfg
	Body  func()
	Check func(o *vs.Outcome) string
	// Traces tells how to count: every complete execution is a trace of the model judged on the implementation.
}

// Explore enumerates the executions of a scenario under the scheduler.
func (c *C) Explore(s Sched) *vs.Result {
	idx := c.index
	c.index++
	e := &vs.Explorer{Cfg: s.Cfg, Body: s.Body, Check: s.Check, Deadline: c.Deadline}
	if c.replay != nil {
		if c.replay.Index != idx {
			return &vs.Result{}
		}
		out, msg := e.Replay(c.replay.Choices)
		if msg != "" {
			panic(failed{&Failure{Msg: msg, Index: idx, Choices: c.replay.Choices, Trace: out.Trace}})
		}
		return &vs.Result{}
	}
	var r *vs.Result
	for try := 0; ; try++ { // what is kept between executions may settle
		if r = e.Explore(); r.Err == "" {
			break
		}
		if try == 2 {
			c.Samples = append(c.Samples, "explored as far as possible: "+r.Err)
			e.Tolerant = true
		}
	}
	c.States += int64(r.States + r.FinalStates)
	c.Transitions += int64(r.Transitions)
	c.Traces += int64(r.Complete)
	c.Executions += int64(r.Executions)
	if r.Bad != "" {
		panic(failed{&Failure{Msg: r.Bad, Index: idx, Choices: r.BadChoices}})
	}
	if !r.Exhausted {
		c.Incomplete = true
	}
	return r
}

func runUnit(u Unit, c *C) (f *Failure, brk string) {
	defer func() {
		r := recover()
		switch v := r.(type) {
		case nil:
		case failed:
			f = v.f
		case broken:
			brk = v.msg
		default:
			f = &Failure{Msg: fmt.Sprintf("panic: %v\n%s", r, debug.Stack()), Index: -1}
		}
	}()
	c.Unit = u.Name
	u.Run(c)
	return
}
