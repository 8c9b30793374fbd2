package main

import (
	"fmt"
	"strconv"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
)

var floodMsgs []int

// floodMsg is the message number i of a flood: its index in msgs.
func floodMsg(i int) int {
	if i < 3200 {
		return i
	}
	for len(floodMsgs) <= i-3200 {
		n := len(msgs)
		txt := "f" + strconv.Itoa(n)
		msgs = append(msgs, syslog5424.CreateWholeMessage(13, time.Date(2003, 10, 11, 22, 14, 15, 0, time.UTC), "h", "a", "p", "-", txt))
		wires = append(wires, "<13>1 2003-10-11T22:14:15Z h a p - - "+txt)
		floodMsgs = append(floodMsgs, n)
	}
	return floodMsgs[i-3200]
}

func brief(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-300:]
	}
	return s
}

// floodSizes are next to powers of 2 and 10, beyond what the other scenarios have.
func floodSizes(deep, few bool) []int {
	switch {
	case deep && few:
		return []int{4096, 4097, 10000, 10001, 32769, 65535, 65536, 65537, 100001}
	case deep:
		return append(around(3000, 140000, 1, 1), 1000001, 1<<20+1)
	case few:
		return []int{10001, 65537}
	}
	return []int{4097, 8193, 10001, 16385, 32769, 65537}
}

// flood: tens of thousands of messages wait for one tick or End, the destination may fail once meanwhile.
func flood(t transport, deep bool, fails []outcome, flush bool) mc.Unit {
	counts := floodSizes(deep, len(fails) > 0)
	return seriallyUpTo(60000000, fmt.Sprintf("flood-%s-%d", t.name, len(fails)), 100, func() string {
		n := counts[pick(len(counts), "messages")]
		d := &dest{}
		if len(fails) > 0 {
			d.down, d.downFor = fails[pick(len(fails), "failure")], 1
			if d.down != wConnect {
				d.downFrom = n / 2
			}
		}
		ticks := 0
		if flush || len(fails) > 0 || pick(2, "ticks") == 1 {
			ticks = 1 + 2*len(fails)
		}
		tick := make(chan time.Time)
		s, errs := syslog5424.NewSender(d, t.t, tick)
		var all []*sent
		bad := ""
		for i := 0; i < n && bad == ""; i++ {
			x := &sent{idx: i, msg: floodMsg(i)}
			all = append(all, x)
			if x.err = s.Send(msgs[x.msg]); x.err != nil {
				bad = fmt.Sprintf("Send of message %d: %v", i, x.err)
			}
			x.done = true
		}
		for i := 0; i < ticks; i++ {
			vs.SendTo(tick)(time.Time{})
			vs.WaitIdle()
		}
		if flush && bad == "" {
			if _, msg := d.stream(t, all, true); msg != "" {
				bad = "after a tick: " + msg
			}
		}
		s.End()
		var got []error
		for it := vs.Range(errs); it.Next(); {
			got = append(got, it.V)
		}
		if bad == "" {
			_, bad = d.stream(t, all, true)
		}
		if bad == "" {
			bad = d.closedOnce()
		}
		if bad == "" {
			bad = subsequence(got, d.errs)
		}
		if bad != "" {
			return fmt.Sprintf("%s (%d messages, %d ticks)", brief(bad), n, ticks)
		}
		return ""
	})
}
