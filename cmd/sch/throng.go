package main

import (
	"fmt"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
)

// throng: many goroutines send at once while the destination is in the middle of an operation, which may then fail;
// End comes when all of them are done or while they still wait. Everything is due after a tick when flush is set.
func throng(t transport, deep bool, fails []outcome, flush bool) mc.Unit {
	counts := around(2, 130, 1, 1)
	if deep {
		counts = around(2, 1030, 1, 1)
	}
	return serially(fmt.Sprintf("throng-%s-%d", t.name, len(fails)), 100, func() string {
		n := counts[pick(len(counts), "goroutines")]
		each := 1 + pick(2, "messages")
		busy := pick(4, "busy with") // nothing, a connect, a write, the second write
		soon := !flush && pick(2, "End at once") == 1
		d := &dest{gate: make(chan int), gateOn: []string{"", "connect", "write", "write"}[busy]}
		if busy == 3 {
			d.gateAfter = 1
		}
		if len(fails) > 0 {
			d.down, d.downFor = fails[pick(len(fails), "failure")], 1
			if d.down != wConnect {
				d.downFrom = pick(2, "first failure")
			}
		}
		failing := len(fails) > 0
		tick := make(chan time.Time)
		s, errs := syslog5424.NewSender(d, t.t, tick)
		var all []*sent
		do := func(x *sent) {
			x.err = s.Send(msgs[x.msg])
			x.done = true
		}
		slot := func(who, idx int) *sent {
			x := &sent{who: who, idx: idx, msg: len(all)}
			all = append(all, x)
			return x
		}
		for i := 0; i < 3; i++ {
			do(slot(0, i))
		}
		if busy > 0 {
			vs.SendTo(tick)(time.Time{})
			vs.WaitIdle()
		}
		for g := 1; g <= n; g++ {
			mine := make([]*sent, each)
			for i := range mine {
				mine[i] = slot(g, i)
			}
			vs.GoH("sender", func() {
				for _, x := range mine {
					do(x)
				}
			})
		}
		vs.WaitIdle()
		early := 0
		for _, x := range all {
			if x.done {
				early++
			}
		}
		ended := make(chan int, 1)
		end := func() {
			s.End()
			vs.SendTo(ended)(1)
		}
		if soon {
			vs.GoH("end", end)
			vs.WaitIdle()
		}
		if busy > 0 && d.gateOn == "" {
			vs.SendTo(d.gate)(1)
			vs.WaitIdle()
		}
		d.gateOn = ""
		bad := ""
		if flush {
			for i := 0; i < 1+2*len(fails); i++ {
				vs.SendTo(tick)(time.Time{})
				vs.WaitIdle()
			}
			if _, msg := d.stream(t, all, true); msg != "" {
				bad = "after a tick: " + msg
			}
		}
		if !soon {
			vs.WaitIdle()
			for _, x := range all {
				if bad == "" && (!x.done || x.err != nil) {
					bad = fmt.Sprintf("Send of message %d long before End: returned %v, %v", x.msg, x.done, x.err)
				}
			}
			vs.GoH("end", end)
		}
		vs.Recv(ended)
		ops := d.look()
		var got []error
		for it := vs.Range(errs); it.Next(); {
			got = append(got, it.V)
		}
		vs.WaitIdle()
		if bad == "" {
			_, bad = d.stream(t, all, true)
		}
		if bad == "" {
			bad = d.closedOnce()
		}
		if bad == "" && d.look() != ops {
			bad = "the connections are used after End has returned"
		}
		if bad == "" {
			bad = subsequence(got, d.errs)
		}
		for _, x := range all {
			if bad == "" && !x.done {
				bad = fmt.Sprintf("Send of message %d does not return", x.msg)
			}
		}
		if bad != "" {
			return fmt.Sprintf("%s (%d goroutines of %d messages, %d sent early, busy %d, End at once %v, failing %v)", bad, n, each, early, busy, soon, failing)
		}
		return ""
	})
}
