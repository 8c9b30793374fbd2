package main

import (
	"fmt"
	"strconv"
	"time"
	_ "time/tzdata"

	"verif/mc"
	"verif/ref"
	"verif/vs"
)

// Zones whose offset changes (in minutes) during the year.
var changing = []string{"Europe/Paris", "America/New_York", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Africa/Casablanca", "Asia/Kathmandu", "America/Sao_Paulo"}

// changes are the instants between the years 1972 and 2040 at which the offset of l changes.
func changes(l *time.Location) (at []int64) {
	off := func(s int64) int { _, o := time.Unix(s, 0).In(l).Zone(); return o }
	end := time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	for s := time.Date(1972, 6, 1, 0, 0, 0, 0, time.UTC).Unix(); s < end; s += 7 * 86400 {
		lo, hi := s, s+7*86400
		if off(lo) == off(hi) {
			continue
		}
		for hi-lo > 1 {
			if mid := (lo + hi) / 2; off(mid) == off(lo) {
				lo = mid
			} else {
				hi = mid
			}
		}
		at = append(at, hi)
	}
	return
}

// dstUnits: instants around the changes of the offset of a zone.
func dstUnits() (u []mc.Unit) {
	for _, name := range changing {
		name := name
		u = append(u, stampUnit("changes-"+name, func() func(c *mc.C, x *mc.X) string {
			var l *time.Location
			var at []int64
			around := []int64{-86400, -7201, -3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200, 86400, 182 * 86400}
			return func(c *mc.C, x *mc.X) string {
				if l == nil {
					var err error
					if l, err = time.LoadLocation(name); err != nil {
						mc.Broken("%v", err)
					}
					at = changes(l)
				}
				time.Local = []*time.Location{time.UTC, l}[x.Choose(2)]
				s := at[x.Choose(len(at))] + around[x.Choose(len(around))]
				ns := []int64{0, 123456789}[x.Choose(2)]
				t := time.Unix(s, ns).In(l)
				want := ref.Micros(s*1000000 + ns/1000)
				// the reader's clock is in the other half of the year
				now := t.AddDate(0, 6, 0)
				vs.SetNow(func() time.Time { return now })
				if c.WantSample() {
					c.Sample("%v in %s", t, name)
				}
				var msg string
				switch x.Choose(5) {
				case 0:
					msg = stamped(fresh(0).Time(t), want)
				case 1:
					msg = stamped(fresh(1).Epoch(strconv.FormatInt(s, 10), strconv.FormatInt(ns, 10)), want)
				case 2:
					d := []int64{1, 3600, 86400, 30 * 86400, 200 * 86400}[x.Choose(5)]
					msg = stamped(fresh(0).Delta(time.Unix(s-d, 5).In(l), strconv.FormatInt(d, 10), strconv.FormatInt(ns, 10)), ref.Micros(s*1000000+(ns+5)/1000))
				case 3:
					vs.SetNow(func() time.Time { return t })
					m := fresh(2)
					if x.Choose(2) == 1 {
						m = fresh(1).Now()
					}
					msg = stamped(m, want)
				case 4:
					vs.SetNow(func() time.Time { return t })
					y, mo, _ := t.Date()
					sm := []int{1, 3, 7, 10, 12}[x.Choose(5)]
					if mo == 1 && sm == 12 {
						y--
					}
					str := fmt.Sprintf("%s %2d %02d:%02d:%02d", months[sm-1], 25+x.Choose(4), 1+x.Choose(3), 30, 7)
					d, _ := strconv.Atoi(str[4:6])
					h, _ := strconv.Atoi(str[7:9])
					msg = stamped(fresh(1).Timestamp(str), ref.Date(y, sm, d, h, 30, 7))
				}
				if msg != "" {
					return fmt.Sprintf("%v in %s: %s", t, name, msg)
				}
				return ""
			}
		}()))
	}
	return
}
