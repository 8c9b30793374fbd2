package vs

import (
	"os"
	"sync/atomic"
	"time"
	"unsafe"
)

var nowOverride atomic.Pointer[func() time.Time]

// SetNow fixes what the code under test reads as the current time outside Run (nil: the real time).
func SetNow(f func() time.Time) {
	if f == nil {
		nowOverride.Store(nil)
		return
	}
	nowOverride.Store(&f)
}

// Now is time.Now of the code under test.
//
//go:norace
func Now() time.Time {
	g := running
	if g == nil {
		if f := nowOverride.Load(); f != nil {
			return (*f)()
		}
		return time.Now()
	}
	g.kind, g.label = opNow, "now"
	active.park(g)
	return time.Unix(0, g.n64)
}

// Sleep blocks for d of virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	g := running
	if g == nil {
		time.Sleep(d)
		return
	}
	if d < 0 {
		d = 0
	}
	t := &vtimer{when: int64(d), g: g}
	g.wakened = false
	g.kind, g.tm, g.label = opTimerNew, t, "sleep"
	active.park(g)
	g.kind, g.label = opSleep, "sleep"
	active.park(g)
}

// Timer is a virtual timer.
type Timer struct{ t *vtimer }

// NewTimer starts a timer that sends the time on ch (capacity 1), or runs fn in a goroutine.
//
//go:norace
func NewTimer(d, period time.Duration, ch chan time.Time, fn func()) *Timer {
	g := running
	if d < 0 {
		d = 0
	}
	t := &vtimer{when: int64(d), period: int64(period), fn: fn, tok: relTok()}
	if ch != nil {
		t.ch = *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		t.cap = cap(ch)
		t.box = boxTime
	}
	g.kind, g.tm, g.label = opTimerNew, t, "timer"
	active.park(g)
	return &Timer{t}
}

//go:norace
func boxTime(t time.Time) unsafe.Pointer { p := new(time.Time); *p = t; return unsafe.Pointer(p) }

// Stop stops the timer and tells whether it was running.
//
//go:norace
func (t *Timer) Stop() bool {
	g := running
	g.kind, g.tm, g.label = opTimerStop, t.t, "timer"
	active.park(g)
	return g.res == 1
}

// Restart starts the (stopped) timer again.
//
//go:norace
func (t *Timer) Restart(d, period time.Duration) {
	g := running
	t.t.when, t.t.period = int64(d), int64(period)
	g.kind, g.tm, g.label = opTimerNew, t.t, "timer"
	active.park(g)
}

// Hostname is os.Hostname of the code under test.
func Hostname() (string, error) {
	if h, ok := os.LookupEnv("VS_HOSTNAME"); ok {
		if h == "\x01error" {
			return "", os.ErrInvalid
		}
		return h, nil
	}
	return os.Hostname()
}
