// Command sch explores the library under the controlled scheduler: every interleaving, fault and timer firing
// within bounds. It is built with the overlay written by /verif/instr.
package main

import (
	"fmt"
	"os"
	"strings"

	"verif/mc"
	"verif/vs"
)

func main() {
	if os.Getenv("VS_CHILD") != "" {
		child()
		return
	}
	mc.Main(props)
}

var props []*mc.Property

func reg(p *mc.Property) { props = append(props, p) }

// settled tells what is wrong with how an execution ended. Harness goroutines whose names are in may can stay blocked.
func settled(o *vs.Outcome, may ...string) string {
	if o.Overrun {
		return fmt.Sprintf("the execution does not end within %d steps (livelock)", o.Steps)
	}
	var l []string
next:
	for _, b := range o.Blocked {
		if !b.Lib {
			for _, m := range may {
				if m == b.Name {
					continue next
				}
			}
		}
		l = append(l, b.Name+" at "+b.Op)
	}
	if len(l) > 0 {
		return "blocked for ever: " + strings.Join(l, "; ")
	}
	return ""
}

func unit(name string, cfg vs.Cfg, body func(), check func(o *vs.Outcome) string) mc.Unit {
	return mc.Unit{Name: name, Run: func(c *mc.C) {
		var last string
		r := c.Explore(mc.Sched{Cfg: cfg, Body: body, Check: func(o *vs.Outcome) string {
			if c.WantSample() && last == "" {
				last = fmt.Sprintf("%d goroutines, %d steps, ends in state %x", o.Threads, o.Steps, o.Final)
			}
			return check(o)
		}})
		if last != "" {
			c.Sample("%s; %d executions reach %d different final states", last, r.Executions, r.FinalStates)
		}
	}}
}

var free = vs.Cfg{Preempt: -1, Env: 0, MaxFires: 0, MaxSteps: 20000}

// prepared does something before a unit.
func prepared(first func(), u mc.Unit) mc.Unit {
	run := u.Run
	u.Run = func(c *mc.C) {
		first()
		run(c)
	}
	return u
}
