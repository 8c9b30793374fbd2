// Package vs is a controlled scheduler: it runs goroutines one at a time, decides at every
// synchronisation operation who continues, and lets an explorer enumerate those decisions.
//
// The sources of /repo are redirected to it by /verif/instr at check time.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"
	"unsafe"
)

type opKind uint8

const (
	opStart  opKind = iota
	opPoint         // generic visible operation on an object
	opChoose        // environment choice
	opLock
	opTryLock
	opUnlock
	opWLock // announces a writer: readers that come later wait
	opDrain // waits for the readers that are in
	opRLock
	opTryRLock
	opRUnlock
	opSend
	opRecv
	opSelect
	opClose
	opLen
	opAdd    // waitgroup, negative
	opAddPos // waitgroup, positive
	opWait
	opCondWait
	opCondWake // parked on a condition
	opSignal
	opBroadcast
	opOnceEnter
	opOnceLeave
	opNow
	opTimerNew
	opTimerStop
	opSleep
	opIdle // harness: nothing else can run
	opBlock
	opAwait
)

var opNames = [...]string{"start", "point", "choose", "lock", "trylock", "unlock", "wlock", "drain", "rlock", "tryrlock", "runlock", "send", "recv", "select", "close", "len",
	"wg.done", "wg.add", "wg.wait", "cond.wait", "cond.wake", "signal", "broadcast", "once", "once.leave", "now", "timer.new", "timer.stop", "sleep", "idle", "block", "await"}

type caseReq struct {
	send bool
	ch   unsafe.Pointer
	cap  int
	ptr  unsafe.Pointer // value sent
	tok  unsafe.Pointer // release token
}

// G is a controlled goroutine.
type G struct {
	id     int
	name   string
	lib    bool
	key    uint64
	h      uint64
	spawns uint64
	resume chan struct{}
	done   bool
	killed bool
	quiet  bool

	// request
	kind  opKind
	obj   unsafe.Pointer
	n     int
	n64   int64
	label string
	cases []*caseReq
	dflt  bool
	one   [1]*caseReq
	oneC  caseReq
	fn    func()
	tm    *vtimer
	wait  Waiter

	// answer
	res    int
	resPtr unsafe.Pointer
	resOk  bool
	toks   [2]unsafe.Pointer
	resErr string

	waiting *object // condition or sleep
	wakened bool
}

type item struct {
	ptr unsafe.Pointer
	tok unsafe.Pointer
}

type object struct {
	h       uint64
	locked  bool
	readers int
	buf     []item
	back    []unsafe.Pointer // tokens released by receivers (buffered channels)
	closed  bool
	ctok    unsafe.Pointer
	count   int
	once    int // 0 new, 1 running, 2 done
	waiters []*G
}

type vtimer struct {
	when   int64
	period int64
	seq    int
	ch     unsafe.Pointer // channel receiving time, may be nil
	cap    int
	fn     func() // AfterFunc
	g      *G     // sleeper
	active bool
	tok    unsafe.Pointer
	box    func(t time.Time) unsafe.Pointer
}

// tryLocks is set at link time when the sources use TryLock or TryRLock: what happens between a lock and its
// release is then visible to others even if nothing in between is.
var tryLocks string

// Cfg bounds one exploration.
type Cfg struct {
	Preempt  int // maximum number of preemptions, -1: unbounded
	Env      int // maximum sum of costs of environment deviations, -1: unbounded
	MaxFires int // maximum number of timer firings per execution
	MaxSteps int // maximum number of scheduled steps per execution
	Trace    bool
	Start    time.Time // virtual time at start
	Lazy     bool      // the clock advances only when nothing else can happen
	Serial   int       // not 0: one schedule only, without preemptions: the oldest (1) or the youngest (2) goroutine that can go on does
}

// Blocked describes a goroutine that had not finished at quiescence.
type Blocked struct {
	Name string
	Lib  bool
	Op   string
}

// Outcome is what one execution ended with.
type Outcome struct {
	Steps   int
	Blocked []Blocked
	Panic   string // value and stack of a panic that escaped a goroutine
	PanicIn string
	Pruned  bool
	Overrun bool // MaxSteps reached: livelock or too small a horizon
	Races   int
	Trace   []string
	Threads int
	Fires   int
	Final   uint64
}

type sched struct {
	cfg     Cfg
	gs      []*G
	events  chan *G
	objs    map[unsafe.Pointer]*object
	cur     *G // last scheduled
	clock   int64
	clockH  uint64
	timers  []*vtimer
	tseq    int
	fires   int
	steps   int
	trace   []string
	pan     string
	panG    string
	killing bool
	endTok  unsafe.Pointer
	choose  func(n int, costs []cost, key uint64, cur int) int
	keyBuf  uint64
}

type cost struct{ pre, env int }

var (
	active   *sched // run in progress
	running  *G     // goroutine holding the token
	progress atomic.Int64
)

// Active tells whether the caller runs under the scheduler.
//
//go:norace
func Active() bool { return running != nil }

const (
	m1 = 0x9E3779B97F4A7C15
	m2 = 0xBF58476D1CE4E5B9
	m3 = 0x94D049BB133111EB
)

//go:norace
func mix(x uint64) uint64 {
	x += m1
	x = (x ^ (x >> 30)) * m2
	x = (x ^ (x >> 27)) * m3
	return x ^ (x >> 31)
}

//go:norace
func mix2(a, b uint64) uint64 { return mix(a ^ mix(b+0x632BE59BD9B4E019)) }

// park hands the token to the scheduler with g's request and waits for the answer.
//
//go:norace
func (s *sched) park(g *G) {
	if g.killed {
		runtime.Goexit()
	}
	raceReleaseMerge(s.endTok)
	raceDisable()
	s.events <- g
	<-g.resume
	raceEnable()
	if g.killed {
		runtime.Goexit()
	}
	if g.resErr != "" {
		e := g.resErr
		g.resErr = ""
		panic(plainError(e))
	}
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

//go:norace
func (s *sched) getObj(p unsafe.Pointer) *object {
	o := s.objs[p]
	if o == nil {
		o = &object{}
		s.objs[p] = o
	}
	return o
}

//go:norace
func (s *sched) spawn(parent *G, name string, lib bool, fn func()) *G {
	g := &G{id: len(s.gs), name: name, lib: lib, resume: make(chan struct{}, 1), kind: opStart}
	if parent != nil {
		parent.spawns++
		g.key = mix2(parent.key, parent.spawns)
	} else {
		g.key = mix(7)
	}
	s.gs = append(s.gs, g)
	return g
}

//go:norace
func (s *sched) main(g *G, fn func()) {
	defer s.exit(g)
	raceDisable()
	<-g.resume
	raceEnable()
	if g.killed {
		return
	}
	fn()
}

//go:norace
func (s *sched) exit(g *G) {
	if r := recover(); r != nil && !g.killed {
		if s.pan == "" {
			s.pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
			s.panG = g.name
		}
	}
	g.done = true
	raceReleaseMerge(s.endTok)
	raceDisable()
	s.events <- g
	raceEnable()
}

// --- scheduler side ---------------------------------------------------------------------------

type trans struct {
	g    *G // nil: clock
	alt  int
	p    *G // rendezvous partner
	palt int
	cost cost
}

//go:norace
func (s *sched) caseReady(g *G, c *caseReq, alt int, out []trans) []trans {
	if c.ch == nil {
		return out
	}
	o := s.getObj(c.ch)
	if c.send {
		if o.closed {
			return append(out, trans{g: g, alt: alt})
		}
		if c.cap > 0 {
			if len(o.buf) < c.cap {
				return append(out, trans{g: g, alt: alt})
			}
			return out
		}
		for _, q := range s.gs {
			if q == g || q.done || (q.kind != opRecv && q.kind != opSelect) {
				continue
			}
			for j, d := range q.cases {
				if !d.send && d.ch == c.ch {
					out = append(out, trans{g: g, alt: alt, p: q, palt: j})
				}
			}
		}
		return out
	}
	if len(o.buf) > 0 {
		return append(out, trans{g: g, alt: alt})
	}
	if c.cap == 0 {
		for _, q := range s.gs {
			if q == g || q.done || (q.kind != opSend && q.kind != opSelect) {
				continue
			}
			for j, d := range q.cases {
				if d.send && d.ch == c.ch && !o.closed {
					out = append(out, trans{g: g, alt: alt, p: q, palt: j})
				}
			}
		}
	}
	if o.closed {
		out = append(out, trans{g: g, alt: alt})
	}
	return out
}

//go:norace
func (s *sched) enabled(g *G, out []trans) []trans {
	switch g.kind {
	case opPoint, opClose, opAddPos, opLen, opTryLock, opTryRLock, opCondWait, opTimerNew, opTimerStop, opSignal, opBroadcast:
		return append(out, trans{g: g})
	case opChoose:
		for i := 0; i < g.n; i++ {
			c := 0
			if i > 0 && g.n64 > 0 {
				c = int(g.n64)
			}
			out = append(out, trans{g: g, alt: i, cost: cost{env: c}})
		}
		return out
	case opLock:
		o := s.getObj(g.obj)
		if !o.locked && o.readers == 0 {
			return append(out, trans{g: g})
		}
	case opRLock, opWLock:
		if o := s.getObj(g.obj); !o.locked {
			return append(out, trans{g: g})
		}
	case opDrain:
		if o := s.getObj(g.obj); o.readers == 0 {
			return append(out, trans{g: g})
		}
	case opWait:
		if s.getObj(g.obj).count <= 0 {
			return append(out, trans{g: g})
		}
	case opOnceEnter:
		if s.getObj(g.obj).once != 1 {
			return append(out, trans{g: g})
		}
	case opAwait:
		if r := g.wait.Ready(); r >= 0 {
			return append(out, trans{g: g, alt: r})
		}
	case opCondWake, opSleep:
		if g.wakened {
			return append(out, trans{g: g})
		}
	case opSend, opRecv, opSelect:
		n := len(out)
		for i, c := range g.cases {
			out = s.caseReady(g, c, i, out)
		}
		if len(out) == n && g.dflt {
			out = append(out, trans{g: g, alt: -1})
		}
	}
	return out
}

//go:norace
func (s *sched) event(g *G, alt int, o *object) {
	if g.quiet {
		return
	}
	h := mix2(g.h, uint64(g.kind)<<32|uint64(uint32(alt)))
	if o != nil {
		h = mix2(h, o.h)
		o.h = h
	}
	g.h = h
}

//go:norace
func (s *sched) note(g *G, what string) {
	if s.cfg.Trace {
		s.trace = append(s.trace, g.name+": "+what)
	}
}

// immediate performs the requests that are not scheduling points.
//
//go:norace
func (s *sched) immediate(g *G) bool {
	switch g.kind {
	case opUnlock:
		o := s.getObj(g.obj)
		if !o.locked {
			g.resErr = "sync: unlock of unlocked mutex"
		}
		o.locked = false
		s.event(g, 0, o)
	case opRUnlock:
		o := s.getObj(g.obj)
		if o.readers <= 0 {
			g.resErr = "sync: RUnlock of unlocked RWMutex"
		}
		o.readers--
		s.event(g, 0, o)
	case opAdd:
		o := s.getObj(g.obj)
		o.count += g.n
		if o.count < 0 {
			g.resErr = "sync: negative WaitGroup counter"
		}
		s.event(g, 0, o)
	case opOnceLeave:
		o := s.getObj(g.obj)
		o.once = 2
		s.event(g, 0, o)
	case opNow:
		g.n64 = s.clock
		g.h = mix2(g.h, s.clockH)
	default:
		return false
	}
	return true
}

//go:norace
func (s *sched) chanTake(o *object, c *caseReq, g *G) {
	it := o.buf[0]
	o.buf = o.buf[1:]
	g.resPtr, g.resOk = it.ptr, true
	g.toks[0] = it.tok
	o.back = append(o.back, c.tok)
}

//go:norace
func (s *sched) apply(t trans) {
	g := t.g
	if g == nil {
		s.fire()
		return
	}
	g.toks[0], g.toks[1] = nil, nil
	g.res = t.alt
	g.resPtr, g.resOk = nil, false
	switch g.kind {
	case opPoint, opLen, opTryLock, opTryRLock, opAddPos:
		o := s.getObj(g.obj)
		switch g.kind {
		case opAddPos:
			o.count += g.n
		case opLen:
			g.res = len(o.buf)
		case opTryLock:
			g.res = 0
			if !o.locked && o.readers == 0 {
				o.locked = true
				g.res = 1
			}
		case opTryRLock:
			g.res = 0
			if !o.locked {
				o.readers++
				g.res = 1
			}
		}
		s.event(g, 0, o)
	case opChoose:
		var o *object
		if g.obj != nil {
			o = s.getObj(g.obj)
		}
		s.event(g, t.alt, o)
		if s.cfg.Trace {
			s.note(g, "choose "+g.label+" = "+strconv.Itoa(t.alt))
		}
		return
	case opLock:
		o := s.getObj(g.obj)
		o.locked = true
		s.event(g, 0, o)
	case opWLock:
		o := s.getObj(g.obj)
		o.locked = true
		g.res = o.readers
		s.event(g, 0, o)
	case opDrain:
		s.event(g, 0, s.getObj(g.obj))
	case opRLock:
		o := s.getObj(g.obj)
		o.readers++
		s.event(g, 0, o)
	case opAwait:
		s.event(g, t.alt, s.getObj(g.obj))
	case opWait:
		s.event(g, 0, s.getObj(g.obj))
	case opOnceEnter:
		o := s.getObj(g.obj)
		g.res = o.once
		if o.once == 0 {
			o.once = 1
		}
		s.event(g, 0, o)
	case opCondWait:
		o := s.getObj(g.obj)
		o.waiters = append(o.waiters, g)
		g.wakened = false
		s.event(g, 0, o)
	case opCondWake:
		s.event(g, 0, s.getObj(g.obj))
	case opSignal, opBroadcast:
		o := s.getObj(g.obj)
		for len(o.waiters) > 0 {
			o.waiters[0].wakened = true
			o.waiters = o.waiters[1:]
			if g.kind == opSignal {
				break
			}
		}
		s.event(g, 0, o)
	case opIdle:
		g.h = mix2(g.h, s.key())
	case opSleep:
		g.h = mix2(g.h, s.clockH)
	case opTimerNew:
		t := g.tm
		s.tseq++
		t.seq = s.tseq
		t.when = s.clock + t.when
		t.active = true
		s.timers = append(s.timers, t)
		g.h = mix2(g.h, s.clockH)
		s.clockH = mix2(s.clockH, g.h)
	case opTimerStop:
		g.res = 0
		for i, x := range s.timers {
			if x == g.tm {
				s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
				g.res = 1
				break
			}
		}
		g.h = mix2(g.h, s.clockH)
		s.clockH = mix2(s.clockH, g.h)
	case opClose:
		o := s.getObj(g.obj)
		s.event(g, 0, o)
		if o.closed {
			g.resErr = "close of closed channel"
		} else {
			o.closed = true
			o.ctok = g.oneC.tok
		}
	case opSend, opRecv, opSelect:
		if t.alt < 0 {
			for _, c := range g.cases {
				if c.ch != nil {
					s.event(g, -1, s.getObj(c.ch))
				}
			}
			s.note(g, "select default")
			return
		}
		c := g.cases[t.alt]
		o := s.getObj(c.ch)
		if t.p != nil { // rendezvous
			q := t.p
			d := q.cases[t.palt]
			h := mix2(mix2(g.h, q.h), mix2(o.h, uint64(t.alt)<<16|uint64(t.palt)))
			// the joint event must not depend on which side was scheduled: order by role
			if !c.send {
				h = mix2(mix2(q.h, g.h), mix2(o.h, uint64(t.palt)<<16|uint64(t.alt)))
			}
			o.h = h
			g.h = mix2(h, g.key)
			q.h = mix2(h, q.key)
			snd, rcv, sc, rc, ra := g, q, c, d, t.palt
			sa := t.alt
			if !c.send {
				snd, rcv, sc, rc, ra, sa = q, g, d, c, t.alt, t.palt
			}
			rcv.res, rcv.resPtr, rcv.resOk = ra, sc.ptr, true
			rcv.toks[0], rcv.toks[1] = sc.tok, nil
			snd.res = sa
			snd.toks[0], snd.toks[1] = rc.tok, nil
			q.kind = opBlock // until resumed, just after this
			q.cases = nil
			if s.cfg.Trace {
				s.note(g, opNames[g.kind]+" chan, rendezvous with "+q.name)
			}
			return
		}
		s.event(g, t.alt, o)
		if len(g.cases) > 1 { // the readiness of the other cases was observed through the choice only
			for i, d := range g.cases {
				if i != t.alt && d.ch != nil && d.ch != c.ch {
					s.event(g, i, s.getObj(d.ch))
				}
			}
		}
		if c.send {
			if o.closed {
				g.resErr = "send on closed channel"
			} else {
				o.buf = append(o.buf, item{c.ptr, c.tok})
				if len(o.back) > 0 {
					g.toks[0] = o.back[0]
					o.back = o.back[1:]
				}
			}
		} else if len(o.buf) > 0 {
			s.chanTake(o, c, g)
		} else { // closed
			g.resOk = false
			g.toks[0] = o.ctok
		}
	}
	if s.cfg.Trace {
		s.note(g, opNames[g.kind]+" "+g.label)
	}
}

//go:norace
func (s *sched) nextTimer() *vtimer {
	var best *vtimer
	for _, t := range s.timers {
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

//go:norace
func (s *sched) fire() {
	t := s.nextTimer()
	s.fires++
	if t.when > s.clock {
		s.clock = t.when
	}
	s.clockH = mix2(s.clockH, uint64(t.seq))
	if t.period > 0 {
		t.when += t.period
		s.tseq++
		t.seq = s.tseq
	} else {
		for i, x := range s.timers {
			if x == t {
				s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
				break
			}
		}
	}
	switch {
	case t.g != nil:
		t.g.wakened = true
	case t.fn != nil:
		p := &G{key: mix2(s.clockH, 99), name: "timer"}
		g := s.spawn(p, "timerfunc", true, t.fn)
		fn, tok := t.fn, t.tok
		go s.main(g, func() { raceAcquire(tok); fn() })
	case t.ch != nil:
		o := s.getObj(t.ch)
		if len(o.buf) < t.cap {
			o.buf = append(o.buf, item{t.box(time.Unix(0, s.clock)), t.tok})
		}
		o.h = mix2(o.h, s.clockH)
		s.clockH = mix2(s.clockH, o.h)
	}
	if s.cfg.Trace {
		s.trace = append(s.trace, "clock: advance to "+strconv.FormatInt((s.clock-s.cfg.Start.UnixNano())/1000, 10)+" us")
	}
}

//go:norace
func (s *sched) key() uint64 {
	k := s.clockH
	for _, g := range s.gs {
		x := mix2(g.key, g.h)
		if g.done {
			x++
		}
		k += x
	}
	return k
}

//go:norace
func (s *sched) run(out *Outcome) {
	var ts []trans
	var costs []cost
	for {
		// the goroutine that has just run
		progress.Add(1)
		if s.pan != "" {
			return
		}
		for i := 0; i < len(s.gs); i++ { // local steps of new goroutines up to their first visible operation
			if g := s.gs[i]; g.kind == opStart && !g.done {
				g.h = mix(g.key)
				s.resume(g)
			}
		}
		if s.pan != "" {
			return
		}
		ts = ts[:0]
		curEnabled := false
		if s.cur != nil && !s.cur.done {
			ts = s.enabled(s.cur, ts)
			curEnabled = len(ts) > 0
		}
		for _, g := range s.gs {
			if g == s.cur || g.done {
				continue
			}
			n := len(ts)
			ts = s.enabled(g, ts)
			if curEnabled {
				for i := n; i < len(ts); i++ {
					ts[i].cost.pre = 1
				}
			}
		}
		idle := false
		if len(ts) == 0 {
			for _, g := range s.gs {
				if !g.done && g.kind == opIdle {
					ts = append(ts, trans{g: g})
					idle = true
				}
			}
		}
		if !idle && len(s.timers) > 0 && s.fires < s.cfg.MaxFires && (len(ts) == 0 || !s.cfg.Lazy) {
			t := trans{g: nil}
			if len(ts) > 0 {
				t.cost.pre = 1
			}
			ts = append(ts, t)
		}
		if len(ts) == 0 {
			return
		}
		if s.cfg.Serial != 0 && len(ts) > 1 {
			ts = serial(ts, s.cfg.Serial, curEnabled)
		}
		s.steps++
		if s.steps > s.cfg.MaxSteps {
			out.Overrun = true
			return
		}
		pick := 0
		if len(ts) > 1 {
			costs = costs[:0]
			for _, t := range ts {
				costs = append(costs, t.cost)
			}
			cur := -1
			if s.cur != nil {
				cur = s.cur.id
			}
			ck := s.key()
			if s.cfg.Preempt >= 0 && curEnabled {
				ck = mix2(ck, uint64(s.cur.key))
			}
			pick = s.choose(len(ts), costs, ck, cur)
			if pick < 0 {
				out.Pruned = true
				return
			}
		}
		t := ts[pick]
		s.apply(t)
		if t.g == nil {
			continue
		}
		s.cur = t.g
		if t.p != nil { // the partner's local steps up to its next visible operation
			s.resume(t.p)
		}
		s.resume(t.g)
	}
}

// serial leaves of the alternatives those of one goroutine, and only one of them unless the environment chooses.
//
//go:norace
func serial(ts []trans, mode int, curEnabled bool) []trans {
	i := 0
	if mode == 2 && !curEnabled {
		for i = len(ts) - 1; i > 0 && (ts[i].g == nil || ts[i-1].g == ts[i].g); i-- {
		}
	}
	j := i + 1
	if g := ts[i].g; g != nil && g.kind == opChoose {
		for j < len(ts) && ts[j].g == g {
			j++
		}
	}
	return ts[i:j]
}

// direct performs the request of a quiet goroutine, if there is one way to.
//
//go:norace
func (s *sched) direct(g *G) bool {
	if g.kind == opChoose || g.kind == opIdle {
		return false
	}
	ts := s.enabled(g, nil)
	if len(ts) != 1 || ts[0].p != nil {
		return false
	}
	s.apply(ts[0])
	return true
}

// Quietly runs f, in which the caller's operations are not scheduling points and leave no mark on the state. Nothing
// else must be going on.
//
//go:norace
func Quietly(f func()) {
	g := running
	if g == nil {
		f()
		return
	}
	was := g.quiet
	g.quiet = true
	defer func() { g.quiet = was }()
	f()
}

// resume lets g run until its next scheduling point.
//
//go:norace
func (s *sched) resume(g *G) {
	for {
		running = g
		g.resume <- struct{}{}
		e := <-s.events
		if e != g {
			panic("vs: event from a goroutine that does not hold the token")
		}
		running = nil
		if g.done || !s.immediate(g) && !(g.quiet && s.direct(g)) {
			return
		}
	}
}

// Run executes body under the scheduler; choose picks among n alternatives (negative: abandon).
//
//go:norace
func run(cfg Cfg, body func(), choose func(n int, costs []cost, key uint64, cur int) int) *Outcome {
	if active != nil {
		panic("vs: nested run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	if cfg.Start.IsZero() {
		cfg.Start = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	s := &sched{cfg: cfg, events: make(chan *G), objs: make(map[unsafe.Pointer]*object), choose: choose}
	s.clock = cfg.Start.UnixNano()
	s.endTok = unsafe.Pointer(new([2]int64))
	active = s
	out := &Outcome{}
	races := raceErrors()
	g := s.spawn(nil, "main", false, body)
	go s.main(g, body)
	raceDisable()
	s.run(out)
	out.Steps = s.steps
	out.Fires = s.fires
	out.Threads = len(s.gs)
	out.Panic, out.PanicIn = s.pan, s.panG
	if !out.Pruned {
		out.Final = s.key()
	}
	for _, g := range s.gs {
		if !g.done {
			out.Blocked = append(out.Blocked, Blocked{g.name, g.lib, opNames[g.kind] + " " + g.label})
		}
	}
	// end what is left
	s.killing = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		if g.done {
			continue
		}
		g.killed = true
		running = g
		g.resume <- struct{}{}
		for e := range s.events {
			if e == g && g.done {
				break
			}
		}
		running = nil
	}
	raceEnable()
	raceAcquire(s.endTok)
	out.Races = raceErrors() - races
	out.Trace = s.trace
	active = nil
	return out
}

// --- goroutine side ---------------------------------------------------------------------------

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(where string, fn func()) { goStart(where, true, fn) }

// GoH starts a goroutine of the harness.
//
//go:norace
func GoH(name string, fn func()) { goStart(name, false, fn) }

//go:norace
func goStart(name string, lib bool, fn func()) {
	g := running
	if g == nil {
		go fn()
		return
	}
	s := active
	if g.killed {
		return
	}
	n := s.spawn(g, name, lib, fn)
	go s.main(n, fn)
}

// Point is a visible operation on obj, an object that synchronises internally (as a connection does).
//
//go:norace
func Point(obj unsafe.Pointer, label string) {
	g := running
	if g == nil {
		return
	}
	g.kind, g.obj, g.label = opPoint, obj, label
	active.park(g)
	raceAcquire(obj)
	raceReleaseMerge(obj)
}

// Choose is a visible operation on obj (may be nil) whose result, one of n, is picked by the explorer.
// Answers other than 0 cost `cost` environment deviations.
//
//go:norace
func Choose(obj unsafe.Pointer, n int, cost int, label string) int {
	g := running
	if g == nil {
		return 0
	}
	if n <= 1 {
		if obj != nil {
			Point(obj, label)
		}
		return 0
	}
	g.kind, g.obj, g.n, g.n64, g.label = opChoose, obj, n, int64(cost), label
	active.park(g)
	r := g.res
	if obj != nil {
		raceAcquire(obj)
		raceReleaseMerge(obj)
	}
	return r
}

// Waiter tells when an operation can happen, and in which way: a negative value means not yet.
// Ready only depends on the object of the operation and the clock; it is called by the scheduler.
type Waiter interface{ Ready() int }

// Await is a visible operation on obj that happens once w is ready; it returns what Ready said.
//
//go:norace
func Await(obj unsafe.Pointer, w Waiter, label string) int {
	g := running
	g.kind, g.obj, g.wait, g.label = opAwait, obj, w, label
	active.park(g)
	g.wait = nil
	r := g.res
	raceAcquire(obj)
	raceReleaseMerge(obj)
	return r
}

// Clock is the virtual time; it is not a visible operation.
//
//go:norace
func Clock() int64 { return active.clock }

// WaitIdle returns when nothing else can run without advancing the clock.
//
//go:norace
func WaitIdle() {
	g := running
	if g == nil {
		return
	}
	g.kind, g.label = opIdle, "idle"
	active.park(g)
	raceAcquire(active.endTok)
}

//go:norace
func Self() string {
	if running == nil {
		return ""
	}
	return running.name
}

// SyncOp performs operation kind k of package vsync on p.
//
//go:norace
func MutexLock(p unsafe.Pointer) {
	g := running
	g.kind, g.obj, g.label = opLock, p, "mutex"
	active.park(g)
	raceAcquire(p)
}

//go:norace
func MutexTryLock(p unsafe.Pointer) bool {
	g := running
	g.kind, g.obj, g.label = opTryLock, p, "mutex"
	active.park(g)
	if g.res == 1 {
		raceAcquire(p)
		return true
	}
	return false
}

//go:norace
func MutexUnlock(p unsafe.Pointer) {
	g := running
	if tryLocks != "" {
		AtomicPoint(p)
	}
	raceRelease(p)
	g.kind, g.obj, g.label = opUnlock, p, "mutex"
	active.park(g)
}

//go:norace
func RLock(p, q unsafe.Pointer) {
	g := running
	g.kind, g.obj, g.label = opRLock, p, "rwmutex"
	active.park(g)
	raceAcquire(p)
}

//go:norace
func TryRLock(p, q unsafe.Pointer) bool {
	g := running
	g.kind, g.obj, g.label = opTryRLock, p, "rwmutex"
	active.park(g)
	if g.res == 1 {
		raceAcquire(p)
		return true
	}
	return false
}

//go:norace
func RUnlock(p, q unsafe.Pointer) {
	g := running
	if tryLocks != "" {
		AtomicPoint(p)
	}
	raceReleaseMerge(q)
	g.kind, g.obj, g.label = opRUnlock, p, "rwmutex"
	active.park(g)
}

//go:norace
func WLock(p, q unsafe.Pointer) {
	g := running
	g.kind, g.obj, g.label = opWLock, p, "rwmutex"
	active.park(g)
	if g.res > 0 {
		g.kind, g.obj, g.label = opDrain, p, "rwmutex"
		active.park(g)
	}
	raceAcquire(p)
	raceAcquire(q)
}

//go:norace
func WGAdd(p unsafe.Pointer, n int) {
	g := running
	if n < 0 {
		raceReleaseMerge(p)
	}
	g.kind, g.obj, g.n, g.label = opAdd, p, n, "waitgroup"
	if n > 0 {
		g.kind = opAddPos
	}
	active.park(g)
}

//go:norace
func WGWait(p unsafe.Pointer) {
	g := running
	g.kind, g.obj, g.label = opWait, p, "waitgroup"
	active.park(g)
	raceAcquire(p)
}

//go:norace
func OnceDo(p unsafe.Pointer, f func(), done bool) {
	g := running
	if done { // before the execution
		AtomicPoint(p)
		return
	}
	g.kind, g.obj, g.label = opOnceEnter, p, "once"
	active.park(g)
	if g.res == 0 {
		defer func() {
			g := running
			raceRelease(p)
			g.kind, g.obj, g.label = opOnceLeave, p, "once"
			active.park(g)
		}()
		f()
		return
	}
	raceAcquire(p)
}

//go:norace
func CondWait(p unsafe.Pointer, unlock, lock func()) {
	g := running
	g.kind, g.obj, g.label = opCondWait, p, "cond"
	active.park(g)
	unlock()
	g.kind, g.obj, g.label = opCondWake, p, "cond"
	active.park(g)
	lock()
}

//go:norace
func CondSignal(p unsafe.Pointer, all bool) {
	g := running
	g.kind, g.obj, g.label = opSignal, p, "cond"
	if all {
		g.kind = opBroadcast
	}
	active.park(g)
}

// AtomicPoint precedes an atomic operation on p.
//
//go:norace
func AtomicPoint(p unsafe.Pointer) {
	g := running
	if g == nil {
		return
	}
	g.kind, g.obj, g.label = opPoint, p, "atomic"
	active.park(g)
}
