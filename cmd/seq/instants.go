package main

import (
	"fmt"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/ref"
)

// stamps is a family of timestamps.
type stamps struct {
	name  string
	count int
	at    func(i int) string
}

// instants are timestamps one part of which takes every value.
func instants(deep bool) (l []stamps) {
	zone := func(i int) string { return []string{"Z", "+01:30", "-11:00"}[i%3] }
	for n, width := 1, 1; n <= 6; n++ {
		n := n
		width *= 10
		l = append(l, stamps{fmt.Sprintf("fractions-%d", n), width, func(i int) string {
			return fmt.Sprintf("2003-10-11T22:14:15.%0*d%s", n, i, zone(i+n))
		}})
	}
	l = append(l, stamps{"clock", 86400, func(i int) string {
		return fmt.Sprintf("2003-10-11T%02d:%02d:%02d%s", i/3600, i/60%60, i%60, zone(i+i/60))
	}})
	var days []string
	first, last := 1890, 2110
	if deep {
		first, last = 0, 10000
	}
	for y := 0; y < 10000; y++ {
		for m := 1; m <= 12; m++ {
			n := ref.MonthDays(y, m)
			for d := 1; d <= n; d++ {
				if y >= first && y < last || m == 1 && d == 1 || m == 12 && d == n || m == 2 && d == n || m == 3 && d == 1 {
					days = append(days, fmt.Sprintf("%04d-%02d-%02d", y, m, d))
				}
			}
		}
	}
	l = append(l, stamps{"days", len(days), func(i int) string {
		return days[i] + []string{"T00:00:00", "T23:59:59.999999", "T12:00:00.5"}[i%3] + zone(i/3)
	}})
	at := []string{"2003-10-11T22:14:15", "1999-12-31T23:59:59.999999", "2000-01-01T00:00:00", "2024-02-29T12:00:00.000001", "1969-12-31T23:59:59", "0001-01-01T00:00:00", "0000-01-01T00:00:00", "9999-12-31T23:59:59"}
	l = append(l, stamps{"offsets", len(at) * 2 * 1440, func(i int) string {
		k, o := i%len(at), i/len(at)
		return fmt.Sprintf("%s%c%02d:%02d", at[k], "+-"[o%2], o/2/60, o/2%60)
	}})
	return
}

// instantUnits give the timestamps to a check.
func instantUnits(deep bool, check func(c *mc.C, x *mc.X, stamp string)) (u []mc.Unit) {
	for _, f := range instants(deep) {
		f := f
		u = append(u, mc.Unit{Name: "instants-" + f.name, Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) { check(c, x, f.at(x.Choose(f.count))) })
		}})
	}
	return
}

// decodeStamp looks at the timestamp of a decoded message.
func decodeStamp(c *mc.C, x *mc.X, stamp string) {
	s := "<13>1 " + stamp + " - - - - -"
	m, _, err := syslog5424.Parse([]byte(s), nil, true)
	if err != nil {
		x.Fail("the valid message %q is refused: %v", s, err)
	}
	us, err := ref.Instant(stamp)
	if err != nil {
		mc.Broken("%v", err)
	}
	if ts := m.TimeStamp(); micros(ts) != us || ts.Nanosecond()%1000 != 0 {
		x.Fail("message %q: TimeStamp %v", s, ts)
	}
	if c.WantSample() {
		c.Sample("%q", s)
	}
}

// relayStamp relays a message of the timestamp, unless it denotes the instant that stands for no time in Go.
func relayStamp(c *mc.C, x *mc.X, stamp string) {
	us, err := ref.Instant(stamp)
	if err != nil {
		mc.Broken("%v", err)
	}
	if us == micros(time.Time{}) {
		return
	}
	relay(c, x, &ref.Msg{Pri: 13, TS: stamp, Host: "-", App: "-", Proc: "-", MsgID: "-"})
}
