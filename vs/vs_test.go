package vs_test

import (
	"fmt"
	"testing"
	"time"
	"unsafe"

	"verif/vs"
	"verif/vs/vatomic"
	"verif/vs/vsync"
	"verif/vs/vtime"
)

func explore(t *testing.T, cfg vs.Cfg, body func(), check func(o *vs.Outcome) string) *vs.Result {
	t.Helper()
	e := &vs.Explorer{Cfg: cfg, Body: body, Check: check}
	r := e.Explore()
	if r.Err != "" || !r.Exhausted && r.Bad == "" {
		t.Fatalf("%+v", r)
	}
	if r.Bad != "" {
		if _, msg := e.Replay(r.BadChoices); msg == "" {
			t.Fatalf("replay does not show %s", r.Bad)
		}
	}
	return r
}

var free = vs.Cfg{Preempt: -1, Env: -1, MaxFires: 4}

func done(o *vs.Outcome) string {
	if len(o.Blocked) > 0 {
		return fmt.Sprint(o.Blocked)
	}
	return ""
}

func TestInterleavings(t *testing.T) {
	for n := 1; n <= 4; n++ {
		for same := 0; same < 2; same++ {
			var x [2]int64
			r := explore(t, free, func() {
				for k := 0; k < 2; k++ {
					k := k
					vs.GoH("t", func() {
						for i := 0; i < n; i++ {
							vs.Point(unsafe.Pointer(&x[k*(1-same)]), "p")
						}
					})
				}
			}, done)
			want := 1
			if same == 1 {
				for i := 1; i <= n; i++ {
					want = want * (n + i) / i
				}
			}
			if r.FinalStates != want {
				t.Errorf("n %d same %d: %d final states, want %d", n, same, r.FinalStates, want)
			}
		}
	}
}

func TestDeadlock(t *testing.T) {
	for i := 0; i < 2; i++ {
		cfg := free
		cfg.Preempt = i
		r := explore(t, cfg, func() {
			var a, b vsync.Mutex
			vs.GoH("t", func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
			b.Lock()
			a.Lock()
			a.Unlock()
			b.Unlock()
		}, done)
		if (r.Bad != "") != (i > 0) {
			t.Errorf("preempt %d: %+v", i, r)
		}
	}
}

func TestSync(t *testing.T) {
	x := 0
	for name, f := range map[string]func(){
		"mutex": func() {
			var m vsync.Mutex
			vs.GoH("t", func() { m.Lock(); x++; m.Unlock() })
			m.Lock()
			x++
			m.Unlock()
		},
		"chan": func() {
			c := make(chan int)
			vs.GoH("t", func() { x++; vs.SendTo(c)(1) })
			vs.Recv(c)
			x++
		},
		"chanback": func() {
			c := make(chan int)
			vs.GoH("t", func() { vs.SendTo(c)(1); x++ })
			x++
			vs.Recv(c)
		},
		"buf": func() {
			c := make(chan int, 1)
			vs.GoH("t", func() { x++; vs.SendTo(c)(1) })
			vs.Recv(c)
			x++
		},
		"semaphore": func() {
			c := make(chan int, 1)
			vs.GoH("t", func() { vs.SendTo(c)(1); x++; vs.Recv(c) })
			vs.SendTo(c)(1)
			x++
			vs.Recv(c)
		},
		"close": func() {
			c := make(chan int)
			vs.GoH("t", func() { x++; vs.Close(c) })
			for it := vs.Range(c); it.Next(); {
			}
			x++
		},
		"select": func() {
			c := make(chan int)
			d := make(chan int, 1)
			vs.GoH("t", func() { x++; vs.Select(false, vs.CaseSend(c)(1), vs.CaseSend(d)(2)) })
			a, b := vs.CaseRecv(c), vs.CaseRecv(d)
			if k := vs.Select(false, a, b); k == 0 && a.V != 1 || k == 1 && b.V != 2 {
				panic("value")
			}
			x++
		},
		"wg": func() {
			var w vsync.WaitGroup
			w.Add(2)
			var m vsync.RWMutex
			vs.GoH("t", func() { m.Lock(); x++; m.Unlock(); w.Done() })
			vs.GoH("t", func() { m.RLock(); _ = x; m.RUnlock(); w.Done() })
			w.Wait()
			x++
		},
		"once": func() {
			var o vsync.Once
			vs.GoH("t", func() { o.Do(func() { x++ }); _ = x })
			o.Do(func() { x++ })
			_ = x
		},
		"cond": func() {
			var m vsync.Mutex
			c := vsync.NewCond(&m)
			ready := false
			vs.GoH("t", func() { m.Lock(); ready = true; x++; c.Signal(); m.Unlock() })
			m.Lock()
			for !ready {
				c.Wait()
			}
			x++
			m.Unlock()
		},
		"atomic": func() {
			var f vatomic.Bool
			vs.GoH("t", func() { x++; f.Store(true) })
			if f.Load() {
				x++
			}
		},
		"timer": func() {
			x++
			c := make(chan int)
			vtime.AfterFunc(time.Second, func() { x++; vs.Close(c) })
			vs.Recv(c)
			x++
			tk := vtime.NewTicker(time.Second)
			vs.Recv(tk.C)
			tk.Stop()
			if vs.Now().Unix() < time.Date(2020, 1, 1, 0, 0, 2, 0, time.UTC).Unix() {
				panic(vs.Now())
			}
		},
		"idle": func() {
			vs.GoH("t", func() { x++ })
			vs.WaitIdle()
			x++
		},
	} {
		if r := explore(t, free, f, done); r.Bad != "" {
			t.Errorf("%s: %s", name, r.Bad)
		} else {
			t.Log(name, r.States, r.Executions)
		}
	}
	for name, f := range map[string]func(){
		"plain": func() { vs.GoH("t", func() { x++ }); x++ },
		"twolocks": func() {
			var m, n vsync.Mutex
			vs.GoH("t", func() { m.Lock(); x++; m.Unlock() })
			n.Lock()
			x++
			n.Unlock()
		},
		"bufback": func() { // the receive does not happen before the completion of a buffered send
			c := make(chan int, 1)
			vs.GoH("t", func() { vs.SendTo(c)(1); x++ })
			x++
			vs.Recv(c)
		},
		"check": func() {
			var m vsync.Mutex
			ok := false
			vs.GoH("t", func() { m.Lock(); x++; ok = true; m.Unlock() })
			m.Lock()
			o := ok
			m.Unlock()
			if o {
				return
			}
			x++ // races only when this goroutine locked first
		},
	} {
		r := explore(t, free, f, done)
		if (r.Bad != "") != vs.RaceBuild {
			t.Errorf("%s: %+v", name, r)
		}
	}
}

func TestLostWakeup(t *testing.T) {
	r := explore(t, free, func() {
		var m vsync.Mutex
		c := vsync.NewCond(&m)
		var f vatomic.Bool
		vs.GoH("t", func() { f.Store(true); c.Signal() })
		m.Lock()
		if !f.Load() {
			c.Wait()
		}
		m.Unlock()
	}, done)
	if r.Bad == "" {
		t.Error("not found")
	}
}

func TestPanics(t *testing.T) {
	for name, f := range map[string]func(){
		"nilmap":     func() { var m map[int]int; m[1] = 1 },
		"closeclose": func() { c := make(chan int); vs.Close(c); vs.Close(c) },
		"sendclosed": func() {
			c := make(chan int)
			vs.GoH("t", func() { vs.Close(c) })
			vs.Select(false, vs.CaseSend(c)(1))
		},
		"unlock": func() { var m vsync.Mutex; m.Unlock() },
	} {
		if r := explore(t, free, f, done); r.Bad == "" {
			t.Errorf("%s", name)
		}
	}
	// nothing is left behind
	r := explore(t, free, func() {
		c := make(chan int)
		defer vs.Close(c)
		vs.Recv(c)
	}, done)
	if r.Bad == "" {
		t.Error("blocked receive not seen")
	}
}

func TestRecursiveRLock(t *testing.T) {
	e := &vs.Explorer{Cfg: free, Body: func() {
		var m vsync.RWMutex
		vs.GoH("r", func() {
			m.RLock()
			m.RLock()
			m.RUnlock()
			m.RUnlock()
		})
		vs.GoH("w", func() {
			m.Lock()
			m.Unlock()
		})
	}, Check: done}
	if r := e.Explore(); r.Bad == "" {
		t.Errorf("the deadlock of a recursive read lock is not found: %+v", r)
	}
	r := explore(t, free, func() {
		var m vsync.RWMutex
		n := 0
		for i := 0; i < 2; i++ {
			vs.GoH("r", func() {
				m.RLock()
				_ = n
				m.RUnlock()
			})
			vs.GoH("w", func() {
				m.Lock()
				n++
				m.Unlock()
			})
		}
	}, done)
	if r.Bad != "" {
		t.Errorf("%+v", r)
	}
}

type memo struct {
	lock vsync.Mutex
	m    map[string][]int
	pool *[]byte
	any  interface{}
}

var (
	testMemo  = &memo{m: map[string][]int{"a": {1}}, pool: &[]byte{1, 2}, any: &memo{m: map[string][]int{}}}
	testSync  vsync.Map
	testCount int
)

// What package variables refer to is the same at the start of every execution.
func TestGlobals(t *testing.T) {
	testSync.Store("k", "v")
	vs.Globals("verif/vs_test", []any{&testCount}, []any{&testMemo, &testSync})
	bad := ""
	explore(t, vs.Cfg{Preempt: -1, MaxSteps: 100}, func() {
		_, other := testSync.Load("other")
		if len(testMemo.m) != 1 || testMemo.m["a"][0] != 1 || (*testMemo.pool)[0] != 1 || len(testMemo.any.(*memo).m) != 0 || testCount != 0 || other {
			bad = "changed"
		}
		for i := 0; i < 2; i++ {
			vs.Go("g", func() {
				testMemo.lock.Lock()
				defer testMemo.lock.Unlock()
				testCount++
				testMemo.m["a"][0] = testCount
				testMemo.m["b"] = nil
				*testMemo.pool = append((*testMemo.pool)[:0], 7)
				testMemo.any.(*memo).m["x"] = nil
				testMemo.any = nil
				if testCount == 1 {
					testMemo.any = &memo{m: map[string][]int{}}
				}
				testSync.Store("other", 1)
				testSync.Delete("k")
			})
		}
	}, func(*vs.Outcome) string { return bad })
	if v, _ := testSync.Load("k"); testCount != 0 || v != "v" {
		t.Fatal("not as before")
	}
}
