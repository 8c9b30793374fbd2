package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
	"verif/ref"
	"verif/vs"
)

var months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

// stamped checks the encoding of a message against the wanted instant and returns what is wrong.
func stamped(m syslog5424.Message, want ref.Micros) string {
	b, err := m.Marshal5424()
	if err != nil {
		return err.Error()
	}
	r, err := ref.Parse(b, 255)
	if err != nil {
		return fmt.Sprintf("%q: %v", b, err)
	}
	us, err := ref.Instant(r.TS)
	if err != nil {
		return fmt.Sprintf("%q: %v", b, err)
	}
	if us != want {
		return fmt.Sprintf("the timestamp %s is off by %d us", r.TS, us-want)
	}
	if i := strings.IndexByte(r.TS, '.'); i >= 0 && len(strings.TrimRight(r.TS[i+1:], "Z+-:0123456789")) > 0 {
		return fmt.Sprintf("the timestamp %s is malformed", r.TS)
	}
	l, _, err := syslog5424.Parse(b, nil, true)
	if err != nil {
		return err.Error()
	}
	ts := l.TimeStamp()
	if g := microsOf(ts); g != want || ts.Nanosecond()%1000 != 0 {
		return fmt.Sprintf("the timestamp %s is decoded as %v", r.TS, ts)
	}
	if w := l.Writable().String(); w != string(b) {
		if r2, err := ref.Parse([]byte(w), 255); err != nil {
			return err.Error()
		} else if g, err := ref.Instant(r2.TS); err != nil || g != want {
			return fmt.Sprintf("the timestamp %s becomes %s in a writable message", r.TS, r2.TS)
		}
	}
	return ""
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// fresh are messages a timestamp is set on.
func fresh(k int) syslog5424.Message {
	switch k {
	case 0:
		return syslog5424.EmptyMessage()
	case 1:
		return syslog5424.CreateWholeMessage(13, time.Date(2001, 2, 3, 4, 5, 6, 7, time.FixedZone("", 5400)), "h", "a", "p", "i", "text")
	}
	return syslog5424.CreateMessage("a", 13, "text")
}

// zone makes a zone of whole minutes east of UTC.
func zone(min int) *time.Location { return time.FixedZone("", min*60) }

func stampUnit(name string, body func(c *mc.C, x *mc.X) string) mc.Unit {
	return mc.Unit{Name: name, Run: func(c *mc.C) {
		local := time.Local
		defer func() { time.Local = local; vs.SetNow(nil) }()
		vs.SetNow(func() time.Time { return time.Date(2003, 10, 11, 22, 14, 15, 0, time.UTC) })
		c.Enumerate(func(x *mc.X) {
			if msg := body(c, x); msg != "" {
				x.Fail("%s", msg)
			}
		})
	}}
}

var zones = []int{0, 1, -1, 330, -210, 60, -720, 840, 1439, -1439, 345, -59}

func init() {
	reg(&mc.Property{ID: "C22", Assume: []string{"a stamp without a zone is in UTC (as the package does)", "the year and month of reading are those of the reader's local time", "years 1 to 9999, no stamp of February 29 in a common year"},
		Bounds: func(deep bool) string {
			return "stamps of every day of the year at 3 times and at every minute and second, with and without fractions, read at the first, an inner and the last instant of every month of 8 years in 5 (thorough 12) zones; seconds since the epoch at the boundaries of minutes, days, months, years 1900 to 2100 and powers of two, with nanoseconds at all decimal boundaries, plain and padded, in 12 local zones; nanoseconds of up to 292 years and negative ones; offsets to boot times; time values in all 2879 whole-minute zones, at all second, day, month and year boundaries, and all microseconds near them; around every change of the offset of 8 zones from 1972 to 2040"
		},
		Units: func(deep bool) (u []mc.Unit) {
			years := []int{1970, 1999, 2000, 2003, 2023, 2024, 2100, 2399}
			nz := 5
			if deep {
				nz = len(zones)
			}
			for _, y := range years {
				y := y
				u = append(u, stampUnit(fmt.Sprintf("stamps-%d", y), func(c *mc.C, x *mc.X) string {
					// when it is read
					z := zones[x.Choose(nz)]
					time.Local = zone(z)
					mo := 1 + x.Choose(12)
					var now time.Time
					switch x.Choose(3) {
					case 0:
						now = time.Date(y, time.Month(mo), 1, 0, 0, 0, 0, zone(z))
					case 1:
						now = time.Date(y, time.Month(mo), 15, 13, 0, 0, 1, zone(z))
					case 2:
						now = time.Date(y, time.Month(mo), ref.MonthDays(y, mo), 23, 59, 59, 999999999, zone(z))
					}
					vs.SetNow(func() time.Time { return now })
					// what is read
					sm := 1 + x.Choose(12)
					sy := y
					if mo == 1 && sm == 12 {
						sy--
					}
					d := 1 + x.Choose(31)
					if d > ref.MonthDays(y, sm) || d > ref.MonthDays(sy, sm) {
						return ""
					}
					h, mi, s := 0, 0, 0
					us := 0
					frac := ""
					switch x.Choose(3) {
					case 1:
						h, mi, s = 12, 34, 56
						frac, us = ".789", 789000
					case 2:
						h, mi, s = 23, 59, 59
					}
					str := fmt.Sprintf("%s %2d %02d:%02d:%02d%s", months[sm-1], d, h, mi, s, frac)
					if c.WantSample() {
						c.Sample("%s read at %v", str, now)
					}
					if msg := stamped(fresh(1).Timestamp(str), ref.Date(sy, sm, d, h, mi, s)+ref.Micros(us)); msg != "" {
						return fmt.Sprintf("stamp %q read at %v: %s", str, now, msg)
					}
					return ""
				}))
			}
			u = append(u, stampUnit("clock", func(c *mc.C, x *mc.X) string {
				s := x.Choose(86400)
				str := fmt.Sprintf("Jul %2d %02d:%02d:%02d", 1+s%31, s/3600, s/60%60, s%60)
				if msg := stamped(fresh(0).Timestamp(str), ref.Date(2003, 7, 1+s%31, s/3600, s/60%60, s%60)); msg != "" {
					return fmt.Sprintf("stamp %q: %s", str, msg)
				}
				return ""
			}), stampUnit("stamp-fractions", func(c *mc.C, x *mc.X) string {
				n := 1 + x.Choose(9)
				digits := ""
				for i := 0; i < n; i++ {
					digits += []string{"0", "1", "9"}[x.Choose(3)]
				}
				us, _ := strconv.Atoi((digits + "00000")[:6])
				str := "Feb  3 04:05:06." + digits
				if msg := stamped(fresh(0).Timestamp(str), ref.Date(2003, 2, 3, 4, 5, 6)+ref.Micros(us)); msg != "" {
					return fmt.Sprintf("stamp %q: %s", str, msg)
				}
				return ""
			}))

			// seconds at all kinds of boundaries
			var secs []int64
			add := func(s int64) {
				for d := int64(-1); d <= 1; d++ {
					if s+d > -62135596800+86400*366 && s+d < 253402300800-86400 {
						secs = append(secs, s+d)
					}
				}
			}
			for y := 1900; y <= 2100; y++ {
				for m := 1; m <= 12; m++ {
					add(int64(ref.Date(y, m, 1, 0, 0, 0)) / 1000000)
				}
			}
			for _, y := range []int{2, 100, 1582, 1600, 1752, 2200, 2262, 3000, 9999} {
				for m := 1; m <= 12; m++ {
					add(int64(ref.Date(y, m, 1, 0, 0, 0)) / 1000000)
				}
				add(int64(ref.Date(y, 2, 28, 23, 59, 59)) / 1000000)
			}
			for i := uint(0); i < 38; i++ {
				add(1 << i)
				add(-(1 << i))
			}
			for s := int64(1000000000); s < 1000000300; s++ {
				secs = append(secs, s)
			}
			nsecs := []int64{0, 1, 9, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000, 1000001, 9999999, 10000000, 120000000, 123456789, 99999999, 100000000, 500000000, 999999000, 999999999}
			pad := func(x *mc.X, n int64) string {
				if x.Choose(2) == 1 && n >= 0 {
					return fmt.Sprintf("%09d", n)
				}
				return strconv.FormatInt(n, 10)
			}
			micros := func(s, ns int64) ref.Micros { return ref.Micros(s*1000000 + ns/1000) }
			for _, z := range zones {
				z := z
				u = append(u, stampUnit(fmt.Sprintf("epoch-%d", z), func(c *mc.C, x *mc.X) string {
					time.Local = zone(z)
					s, ns := secs[x.Choose(len(secs))], nsecs[x.Choose(len(nsecs))]
					a, b := pad(x, s), pad(x, ns)
					if c.WantSample() {
						c.Sample("Epoch(%q, %q) in zone %d", a, b, z)
					}
					if msg := stamped(fresh(1).Epoch(a, b), micros(s, ns)); msg != "" {
						return fmt.Sprintf("Epoch(%q, %q) in the zone %d: %s", a, b, z, msg)
					}
					return ""
				}), stampUnit(fmt.Sprintf("delta-%d", z), func(c *mc.C, x *mc.X) string {
					boot := secs[x.Choose(len(secs)/16)*16]
					bns := []int64{0, 1, 999999999, 123456789}[x.Choose(4)]
					d := []int64{0, 1, 59, 60, 3599, 3600, 86399, 86400, 31535999, 2678400, 1 << 31, 1<<32 + 1, 9000000000}[x.Choose(13)]
					dn := nsecs[x.Choose(len(nsecs))]
					if t := boot + d; t < -62135596800+86400*366 || t > 253402300800-86400 {
						return ""
					}
					a, b := pad(x, d), pad(x, dn)
					want := ref.Micros((boot+d)*1000000 + (bns+dn)/1000)
					if msg := stamped(fresh(0).Delta(time.Unix(boot, bns).In(zone(z)), a, b), want); msg != "" {
						return fmt.Sprintf("Delta(%d.%09d in the zone %d, %q, %q): %s", boot, bns, z, a, b, msg)
					}
					return ""
				}), stampUnit(fmt.Sprintf("now-%d", z), func(c *mc.C, x *mc.X) string {
					s, ns := secs[x.Choose(len(secs))], nsecs[x.Choose(len(nsecs))]
					t := time.Unix(s, ns).In(zone(z))
					vs.SetNow(func() time.Time { return t })
					m := fresh(2)
					if x.Choose(2) == 1 {
						m = fresh(1).Now()
					}
					if msg := stamped(m, micros(s, ns)); msg != "" {
						return fmt.Sprintf("created at %v: %s", t, msg)
					}
					return ""
				}))
			}
			for part := 0; part < 8; part++ {
				part := part
				u = append(u, stampUnit(fmt.Sprintf("zones-%d", part), func(c *mc.C, x *mc.X) string {
					z := -1439 + part*360 + x.Choose(360)
					if z > 1439 {
						return ""
					}
					s := secs[x.Choose(len(secs)/64)*64+part]
					ns := []int64{0, 1000, 999999999, 120000000, 500}[x.Choose(5)]
					t := time.Unix(s, ns).In(zone(z))
					if msg := stamped(fresh(0).Time(t), micros(s, ns)); msg != "" {
						return fmt.Sprintf("Time(%v): %s", t, msg)
					}
					return ""
				}))
			}
			// nanoseconds that are seconds and more, or negative
			odd := []int64{}
			for _, p := range []int64{1, 999, 1000, 1001, 999999999, 1000000000, 1000000001, 1500000000, 1999999999, 2000000000, 59999999999, 60000000000, 3600000000000, 86400000000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 999999999999999999, 1000000000000000000, 1<<62 + 1, 1<<63 - 1} {
				odd = append(odd, p, -p)
			}
			for _, z := range []int{0, 330, -720} {
				z := z
				u = append(u, stampUnit(fmt.Sprintf("nanoseconds-%d", z), func(c *mc.C, x *mc.X) string {
					time.Local = zone(z)
					s := []int64{0, 1, -1, 1065910455, 1 << 31, -(1 << 31), 951782399, 4102444799}[x.Choose(8)]
					ns := odd[x.Choose(len(odd))]
					at := ref.Micros(s*1000000) + ref.Micros(floorDiv(ns, 1000))
					a, b := pad(x, s), pad(x, ns)
					if msg := stamped(fresh(1).Epoch(a, b), at); msg != "" {
						return fmt.Sprintf("Epoch(%q, %q) in the zone %d: %s", a, b, z, msg)
					}
					if ns > 1<<62 || ns < -(1<<62) { // more than the offset to a boot time can be
						return ""
					}
					for _, boot := range []int64{0, 999, 999999999} {
						at := ref.Micros(1700000000*1000000 + floorDiv(boot+ns, 1000) + s*1000000)
						if msg := stamped(fresh(0).Delta(time.Unix(1700000000, boot).In(zone(z)), a, b), at); msg != "" {
							return fmt.Sprintf("Delta(1700000000.%09d in the zone %d, %q, %q): %s", boot, z, a, b, msg)
						}
					}
					return ""
				}))
			}
			u = append(u, dstUnits()...)
			u = append(u, stampUnit("micros", func(c *mc.C, x *mc.X) string {
				k := x.Choose(200000)
				us := int64(k)
				if k >= 100000 {
					us = 1000000 - int64(k-100000)*10 - 1
				}
				t := time.Unix(1065910455, us*1000+999)
				if msg := stamped(fresh(0).Time(t), micros(1065910455, us*1000)); msg != "" {
					return fmt.Sprintf("Time(%v): %s", t, msg)
				}
				return ""
			}))
			return
		}})
}
