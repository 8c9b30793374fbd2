// Package vtime stands in for time in the instrumented sources: clocks, sleeps, timers and tickers are virtual.
package vtime

import (
	"time"

	"verif/vs"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Unix(s, ns int64) Time                    { return time.Unix(s, ns) }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func ParseInLocation(l, v string, z *Location) (Time, error) {
	return time.ParseInLocation(l, v, z)
}
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}

func Now() Time             { return vs.Now() }
func Since(t Time) Duration { return vs.Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(vs.Now()) }
func Sleep(d Duration)      { vs.Sleep(d) }

// Timer is time.Timer.
type Timer struct {
	C <-chan Time
	r *time.Timer
	v *vs.Timer
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan Time
	r *time.Ticker
	v *vs.Timer
}

func NewTimer(d Duration) *Timer {
	if !vs.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	c := make(chan Time, 1)
	return &Timer{C: c, v: vs.NewTimer(d, 0, c, nil)}
}

func AfterFunc(d Duration, f func()) *Timer {
	if !vs.Active() {
		return &Timer{r: time.AfterFunc(d, f)}
	}
	return &Timer{v: vs.NewTimer(d, 0, nil, f)}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	return t.v.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	b := t.v.Stop()
	t.v.Restart(d, 0)
	return b
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vs.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, r: r}
	}
	c := make(chan Time, 1)
	return &Ticker{C: c, v: vs.NewTimer(d, d, c, nil)}
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
		return
	}
	t.v.Stop()
}

func (t *Ticker) Reset(d Duration) {
	if t.r != nil {
		t.r.Reset(d)
		return
	}
	t.v.Stop()
	t.v.Restart(d, d)
}
