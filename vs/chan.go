package vs

import (
	"reflect"
	"unsafe"
)

// --- channels ---------------------------------------------------------------------------------

//go:norace
func (s *sched) chanOp(g *G, kind opKind, c *caseReq) {
	g.kind, g.dflt = kind, false
	g.one[0] = c
	g.cases = g.one[:]
	g.label = "chan"
	s.park(g)
	g.cases = nil
	if g.toks[0] != nil {
		raceAcquire(g.toks[0])
	}
}

//go:norace
func relTok() unsafe.Pointer {
	t := newTok()
	if t != nil {
		raceRelease(t)
	}
	return t
}

// SendTo sends on ch.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		p := new(T)
		*p = v
		doSend(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), unsafe.Pointer(p))
	}
}

//go:norace
func doSend(ch unsafe.Pointer, n int, p unsafe.Pointer) {
	g := running
	g.oneC = caseReq{send: true, ch: ch, cap: n, ptr: p, tok: relTok()}
	active.chanOp(g, opSend, &g.oneC)
}

//go:norace
func doRecv(ch unsafe.Pointer, n int) (unsafe.Pointer, bool) {
	g := running
	g.oneC = caseReq{send: false, ch: ch, cap: n, tok: relTok()}
	active.chanOp(g, opRecv, &g.oneC)
	return g.resPtr, g.resOk
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch and tells whether it is a sent value.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if !Active() {
		v, ok = <-ch
		return
	}
	p, ok := doRecv(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	if ok {
		v = *(*T)(p)
	}
	return v, ok
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	doClose(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

//go:norace
func doClose(ch unsafe.Pointer) {
	g := running
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	g.oneC = caseReq{tok: relTok()}
	g.kind, g.obj, g.label = opClose, ch, "chan"
	active.park(g)
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if !Active() {
		return len(ch)
	}
	return doLen(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

//go:norace
func doLen(ch unsafe.Pointer) int {
	if ch == nil {
		return 0
	}
	g := running
	g.kind, g.obj, g.label = opLen, ch, "chan"
	active.park(g)
	return g.res
}

// Block blocks for ever.
//
//go:norace
func Block() {
	g := running
	if g == nil {
		select {}
	}
	g.kind, g.label = opBlock, "for ever"
	active.park(g)
}

// Iter ranges over a channel.
type Iter[T any] struct {
	ch <-chan T
	V  T
}

func Range[T any](ch <-chan T) *Iter[T] { return &Iter[T]{ch: ch} }

func (i *Iter[T]) Next() bool {
	v, ok := Recv2(i.ch)
	i.V = v
	return ok
}

// Case is one communication of a select.
type Case interface {
	req() *caseReq
	sel() reflect.SelectCase
	got(p unsafe.Pointer, ok bool, rv any)
}

// RecvCase is a receive communication; V and Ok are set when it was selected.
type RecvCase[T any] struct {
	c  caseReq
	ch <-chan T
	V  T
	Ok bool
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{ch: ch}
	r.c = caseReq{ch: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch)}
	return r
}

func (r *RecvCase[T]) req() *caseReq { return &r.c }
func (r *RecvCase[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}
func (r *RecvCase[T]) got(p unsafe.Pointer, ok bool, rv any) {
	r.Ok = ok
	if p != nil {
		r.V = *(*T)(p)
	} else if ok && rv != nil {
		r.V = rv.(T)
	}
}

// SendCase is a send communication.
type SendCase[T any] struct {
	c  caseReq
	ch chan<- T
	v  T
}

func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		r := &SendCase[T]{ch: ch, v: v}
		p := new(T)
		*p = v
		r.c = caseReq{send: true, ch: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), ptr: unsafe.Pointer(p)}
		return r
	}
}

func (r *SendCase[T]) req() *caseReq { return &r.c }
func (r *SendCase[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.ch), Send: reflect.ValueOf(&r.v).Elem()}
}
func (r *SendCase[T]) got(p unsafe.Pointer, ok bool, rv any) {}

// Select returns the index of the communication done, -1 for default.
//
//go:norace
func Select(dflt bool, cases ...Case) int {
	g := running
	if g == nil {
		return realSelect(dflt, cases)
	}
	if len(cases) == 0 {
		if dflt {
			return -1
		}
		Block()
	}
	rs := make([]*caseReq, len(cases))
	tok := relTok()
	for i, c := range cases {
		rs[i] = c.req()
		rs[i].tok = tok
	}
	g.kind, g.dflt, g.cases, g.label = opSelect, dflt, rs, "chan"
	active.park(g)
	g.cases = nil
	if g.res < 0 {
		return -1
	}
	if g.toks[0] != nil {
		raceAcquire(g.toks[0])
	}
	if !rs[g.res].send {
		cases[g.res].got(g.resPtr, g.resOk, nil)
	}
	return g.res
}

// Touch keeps the import used.
const Touch = 0

func realSelect(dflt bool, cases []Case) int {
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		rc = append(rc, c.sel())
	}
	if dflt {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	if !cases[i].req().send {
		var x any
		if ok {
			x = v.Interface()
		}
		cases[i].got(nil, ok, x)
	}
	return i
}
