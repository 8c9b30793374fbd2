package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/vs"
	"verif/vs/vnet"
)

// flushes: manual ticks. Senders, then a tick while other senders are at work.
func flushes(before, during, msgsEach, rounds, preempt int) mc.Unit {
	type run struct {
		d    *dest
		all  []*sent
		bad  string
		snap []string
	}
	var r *run
	return unit(fmt.Sprintf("ticks-%dx%d-during%d-rounds%d-preempt%d", before, msgsEach, during, rounds, preempt), vs.Cfg{Preempt: preempt, MaxSteps: 20000}, func() {
		q := &run{d: &dest{}}
		r = q
		tick := make(chan time.Time)
		s, _ := syslog5424.NewSender(q.d, syslog5424.TransportLFEnded, tick)
		joined := make(chan int, 16)
		start := func(n int, who string, c chan int) {
			for k := 0; k < n; k++ {
				var mine []*sent
				for i := 0; i < msgsEach; i++ {
					x := &sent{who: len(q.all), msg: len(q.all)}
					mine = append(mine, x)
					q.all = append(q.all, x)
				}
				vs.GoH(who, func() {
					for _, x := range mine {
						x.err = s.Send(msgs[x.msg])
						x.done = true
					}
					vs.SendTo(c)(1)
				})
			}
		}
		wait := func(n int, c chan int) {
			for i := 0; i < n; i++ {
				vs.Recv(c)
			}
		}
		for k := 0; k < rounds; k++ {
			from := len(q.all)
			start(before, "sender", joined)
			wait(before, joined)
			if k == 0 {
				vs.WaitIdle()
				for _, c := range q.d.conns {
					if len(c.b) > 0 && q.bad == "" {
						q.bad = "written before the first tick: " + string(c.b)
					}
				}
			}
			must := append([]*sent(nil), q.all[from:]...)
			other := make(chan int, 16)
			start(during, "during", other)
			vs.SendTo(tick)(time.Time{})
			// the tick is handled when the sender has nothing left to do, even if others cannot go on
			vs.WaitIdle()
			got := ""
			for _, c := range q.d.conns {
				got += string(c.b)
			}
			for _, x := range must {
				if !contains(got, wires[x.msg]+"\n") && q.bad == "" {
					q.bad = "accepted before the tick and not written after it: " + wires[x.msg] + "; written: " + got
				}
			}
			wait(during, other)
		}
		s.End()
		vs.WaitIdle()
	}, func(o *vs.Outcome) string {
		if msg := settled(o); msg != "" {
			return msg
		}
		if r.bad != "" {
			return r.bad
		}
		for _, x := range r.all {
			if x.err != nil {
				return "Send: " + x.err.Error()
			}
		}
		_, msg := r.d.stream(transports[0], r.all, true)
		return msg
	})
}

// lateTicks: ticks that wait for the sender, as those of time.Tick do, the first flush of which may fail.
func lateTicks(users, each, preempt int) mc.Unit {
	type run struct {
		d   *dest
		all []*sent
		bad string
	}
	var r *run
	fails := []outcome{wOK, wConnect, wErr0, wErrHalf, wErrAll, wNoBufs}
	return unit(fmt.Sprintf("late-ticks-%dx%d-preempt%d", users, each, preempt), vs.Cfg{Preempt: preempt, MaxSteps: 20000}, func() {
		q := &run{d: &dest{}}
		r = q
		tick := make(chan time.Time, 1)
		q.d.down, q.d.downFor = fails[pick(len(fails), "failure")], 1
		s, _ := syslog5424.NewSender(q.d, syslog5424.TransportLFEnded, tick)
		joined := make(chan int, 16)
		for k := 0; k < users; k++ {
			var mine []*sent
			for i := 0; i < each; i++ {
				x := &sent{who: k, msg: len(q.all), idx: len(q.all)}
				mine = append(mine, x)
				q.all = append(q.all, x)
			}
			vs.GoH("user", func() {
				for _, x := range mine {
					x.err = s.Send(msgs[x.msg])
					x.done = true
					vs.SendTo(tick)(time.Time{})
				}
				vs.SendTo(joined)(1)
			})
		}
		for k := 0; k < users; k++ {
			vs.Recv(joined)
		}
		// every tick is handled when the sender has nothing left to do
		vs.WaitIdle()
		got := ""
		for _, c := range q.d.conns {
			got += string(c.b)
		}
		for _, x := range q.all {
			if !contains(got, wires[x.msg]+"\n") && q.bad == "" {
				q.bad = "accepted before the last tick and not written after it: " + wires[x.msg] + "; written: " + got
			}
		}
		s.End()
		vs.WaitIdle()
	}, func(o *vs.Outcome) string {
		if msg := settled(o); msg != "" {
			return msg
		}
		if r.bad != "" {
			return r.bad
		}
		for _, x := range r.all {
			if x.err != nil {
				return "Send: " + x.err.Error()
			}
		}
		_, msg := r.d.stream(transports[0], r.all, true)
		return msg
	})
}

func contains(s, sub string) bool {
	return strings.Contains(s, sub)
}

// delays: a Dialer on the standard output (a file), with the virtual clock set around the multiples of the delay.
func delays(name, addr string, std **os.File, delay time.Duration, dial bool, rounds int) mc.Unit {
	return mc.Unit{Name: "delay-" + name, Run: func(c *mc.C) {
		path := filepath.Join(scratch(), "stdio")
		var bad string
		cfg := vs.Cfg{Preempt: 0, MaxFires: 6*rounds + 6, MaxSteps: 20000, Start: time.Unix(1700000000, 5)}
		c.Explore(mc.Sched{Cfg: cfg, Body: func() {
			bad = ""
			f, err := os.Create(path)
			if err != nil {
				mc.Broken("%v", err)
			}
			defer f.Close()
			old := *std
			*std = f
			defer func() { *std = old }()
			want := ""
			look := func(when string, w string) {
				vs.WaitIdle()
				b, err := os.ReadFile(path)
				if err != nil {
					mc.Broken("%v", err)
				}
				if string(b) != w && bad == "" {
					bad = "written " + when + ": " + string(b) + "; wanted: " + w
				}
			}
			var s *syslog5424.Sender
			if dial {
				s, _, err = syslog5424.Dial("stdio", addr)
			} else {
				s, _, err = (syslog5424.Dialer{FlushDelay: delay}).Dial("stdio", addr, nil)
			}
			if err != nil {
				bad = err.Error()
				return
			}
			live := delay > time.Millisecond
			n := 0
			step := delay
			if !live {
				step = 100 * time.Millisecond
				vs.Sleep(1)
			}
			queued := ""
			for k := 0; k < rounds; k++ {
				for i, m := 0, vs.Choose(nil, 3, 0, "messages"); i < m; i++ {
					if err := s.Send(msgs[n]); err != nil {
						bad = err.Error()
					}
					queued += wires[n] + "\n"
					n++
				}
				if live {
					if k == 0 {
						vs.Sleep(step - 1)
					} else {
						vs.Sleep(step - 2)
					}
					look("before the tick", want)
					if vs.Choose(nil, 2, 0, "one more") == 1 {
						if err := s.Send(msgs[n]); err != nil {
							bad = err.Error()
						}
						queued += wires[n] + "\n"
						n++
					}
					vs.Sleep(2)
					want += queued
					queued = ""
					look("after the tick", want)
				} else {
					vs.Sleep(step)
					look("without tick", want)
				}
			}
			for i, m := 0, vs.Choose(nil, 2, 0, "messages"); i < m; i++ {
				if err := s.Send(msgs[n]); err != nil {
					bad = err.Error()
				}
				queued += wires[n] + "\n"
				n++
			}
			s.End()
			look("by End", want+queued)
		}, Check: func(o *vs.Outcome) string {
			if msg := settled(o); msg != "" {
				return msg
			}
			return bad
		}})
	}}
}

// netDelays: a Dialer on a socket of the virtual network.
func netDelays(way [2]string, delay time.Duration, dial bool, rounds int) mc.Unit {
	name := delay.String()
	if dial {
		name = "Dial"
	}
	var bad string
	cfg := vs.Cfg{Preempt: 0, MaxFires: 8*rounds + 8, MaxSteps: 20000, Start: time.Unix(1700000000, 5)}
	return unit(fmt.Sprintf("delay-%s-%s-%s", way[0], way[1], name), cfg, func() {
		bad = ""
		w := &vnet.World{}
		vnet.Use(w)
		addr := "127.0.0.1:5514"
		switch way[1] {
		case "unix", "unixgram":
			addr = socketPath()
		case "tcp6":
			addr = "[::1]:5514"
		}
		l, err := syslog5424.GuessListener(way[1], addr)
		if err != nil {
			bad = err.Error()
			return
		}
		var s *syslog5424.Sender
		if dial {
			s, _, err = syslog5424.Dial(way[0], addr)
		} else {
			s, _, err = (syslog5424.Dialer{FlushDelay: delay}).Dial(way[0], addr, syslog5424.TransportRFC5425)
		}
		if err != nil {
			bad = err.Error()
			return
		}
		t := transports[2]
		switch {
		case dial && strings.HasPrefix(way[0], "tcp"):
			t = transports[0]
		case dial:
			t = transports[1]
		}
		want, queued, n := "", "", 0
		send := func(most int) {
			for m := vs.Choose(nil, most+1, 0, "messages"); m > 0; m-- {
				if err := s.Send(msgs[n]); err != nil && bad == "" {
					bad = err.Error()
				}
				queued += t.frame(wires[n])
				n++
			}
		}
		look := func(when string) {
			vs.WaitIdle()
			if b := dialledBytes(w); b != want && bad == "" {
				bad = fmt.Sprintf("written %s: %q; wanted: %q", when, b, want)
			}
		}
		live, step := delay > time.Millisecond, delay
		if !live {
			step = 100 * time.Millisecond
			vs.Sleep(1)
		}
		for k := 0; k < rounds; k++ {
			send(2)
			if !live {
				vs.Sleep(step)
				look("without tick")
				continue
			}
			if k == 0 {
				vs.Sleep(step - 1)
			} else {
				vs.Sleep(step - 2)
			}
			look("before the tick")
			send(1)
			vs.Sleep(2)
			want, queued = want+queued, ""
			look("after the tick")
		}
		send(1)
		s.End()
		want += queued
		look("by End")
		l.Close()
	}, func(o *vs.Outcome) string {
		if msg := settled(o); msg != "" {
			return msg
		}
		return bad
	})
}

// dialledBytes is what was written to the sockets that were dialled.
//
//go:norace
func dialledBytes(w *vnet.World) (b string) {
	for _, s := range w.Socks {
		if s.Dialed {
			s.Look()
			b += wrote(s)
		}
	}
	return
}

func scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	d, err := os.MkdirTemp(d, "s")
	if err != nil {
		mc.Broken("%v", err)
	}
	return d
}

func init() {
	reg(&mc.Property{ID: "C05", Assume: trust,
		Bounds: func(deep bool) string {
			if deep {
				return "every history of up to 6 sends and ticks of two messages that are the same or differ in one of 18 ways; up to 300 (thorough 5000) rounds of 1 to 7 messages and ticks, and 10001 rounds of one, 2 to 130 (thorough 1030) goroutines that send while the destination is busy (two schedules each); ticks after up to 257 failing ones; manual ticks: up to 3 senders before and 2 senders during each of up to 3 ticks, 1 to 2 messages each; waiting ticks of 1 to 2 (thorough 3) users, 2 to 3 each, of which the first may fail in 5 ways; bursts of 63 to 1500 (thorough 3200) messages between two ticks, and of 6 numbers up to 65537 (thorough 2^20+1); virtual clock: 14 flush delays from negative to an hour, on both standard streams, and 6 with the default one through 8 ways to connect in a virtual network, 6 rounds of up to 3 messages, observed one nanosecond before and after each multiple of the delay"
			}
			return "every history of up to 6 sends and ticks of two messages that are the same or differ in one of 18 ways; up to 300 (thorough 5000) rounds of 1 to 7 messages and ticks, and 10001 rounds of one, 2 to 130 (thorough 1030) goroutines that send while the destination is busy (two schedules each); ticks after up to 33 failing ones; manual ticks: up to 2 senders before and 2 senders during each of up to 2 ticks, 1 to 2 messages each; waiting ticks of 1 to 2 (thorough 3) users, 2 to 3 each, of which the first may fail in 5 ways; bursts of 63 to 1500 (thorough 3200) messages between two ticks, and of 6 numbers up to 65537 (thorough 2^20+1); virtual clock: 14 flush delays from negative to an hour, on both standard streams, and 6 with the default one through 8 ways to connect in a virtual network, 4 rounds of up to 3 messages, observed one nanosecond before and after each multiple of the delay"
		},
		Units: func(deep bool) []mc.Unit {
			u := []mc.Unit{flushes(1, 0, 1, 3, -1), flushes(1, 1, 1, 1, -1), flushes(1, 1, 2, 1, -1), flushes(2, 0, 1, 2, -1), flushes(2, 1, 1, 1, -1), flushes(1, 2, 1, 1, 3), flushes(1, 1, 1, 2, 3), flushes(2, 1, 2, 2, 1)}
			for _, n := range []int{63, 64, 65, 99, 100, 101, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 1500} {
				u = append(u, flushes(1, 0, n, 2, 0))
			}
			u = append(u, lateTicks(1, 2, -1), lateTicks(1, 3, 3), lateTicks(2, 2, 2))
			rounds := 4
			if deep {
				u = append(u, lateTicks(1, 3, -1), lateTicks(2, 2, 3), lateTicks(2, 3, 2), lateTicks(3, 2, 2))
				u = append(u, flushes(1, 0, 2047, 1, 0), flushes(1, 0, 2049, 1, 0), flushes(1, 0, 3200, 1, 0), flushes(1, 1, 1024, 1, 0))
				rounds = 6
				u = append(u, flushes(2, 1, 2, 1, -1), flushes(2, 2, 1, 1, -1), flushes(3, 1, 1, 1, 3), flushes(2, 2, 1, 2, 2), flushes(3, 2, 2, 2, 1), flushes(1, 1, 1, 3, -1))
			}
			for _, d := range []time.Duration{-time.Second, -1, 0, 1, time.Microsecond, time.Millisecond - 1, time.Millisecond, time.Millisecond + 1, 2 * time.Millisecond, 10 * time.Millisecond, 333 * time.Millisecond, time.Second, 90 * time.Second, time.Hour} {
				u = append(u, delays("stdout-"+d.String(), "stdout:", &os.Stdout, d, false, rounds), delays("stderr-"+d.String(), "stderr:", &os.Stderr, d, false, rounds))
			}
			u = append(u, outages(jStream, deep)...)
			for i, t := range transports {
				u = append(u, steady(t, deep), throng(t, deep, nil, true), flood(t, deep, nil, true), throng(t, deep, []outcome{wErrHalf, wErrAll, wNoBufs}, true))
				if i == 0 || deep {
					u = append(u, alike(t, 6, nil, true)...)
				}
			}
			for _, w := range eeWays {
				for _, d := range []time.Duration{0, time.Millisecond, time.Millisecond + 1, 333 * time.Millisecond, time.Second, time.Hour} {
					u = append(u, netDelays(w, d, false, 3))
				}
				u = append(u, netDelays(w, 500*time.Millisecond, true, 3))
			}
			return append(u, delays("Dial", "stdout:", &os.Stdout, 500*time.Millisecond, true, rounds))
		}})
}
