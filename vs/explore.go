package vs

import (
	"fmt"
	"time"
)

// Result is what an exploration covered.
type Result struct {
	States      int  // distinct happens-before states at decision points
	Transitions int  // distinct decisions taken
	Executions  int  // executions started
	Complete    int  // executions that ran to quiescence (the others met a known state)
	Steps       int  // scheduled steps executed
	Exhausted   bool // the bounded space was enumerated completely
	MaxThreads  int
	MaxSteps    int
	FinalStates int
	Bad         string // first violation, empty if none
	BadChoices  []int
	BadTrace    []string
	Err         string // the machinery failed (nondeterminism)
	Mismatches  int    // executions that did not follow their prefix, if Tolerant
}

type node struct {
	n     int
	costs []cost
	pick  int
	key   uint64
	pre   int // budgets left before the decision
	env   int
}

// Explorer enumerates the executions of Body.
type Explorer struct {
	Cfg      Cfg
	Body     func()                    // runs under the scheduler; must build everything anew
	Check    func(out *Outcome) string // judges a finished execution; "" if fine
	Deadline time.Time                 // stop exploring after this (zero: never)
	MaxExec  int
	OnStart  func(choices []int) // called before each execution, with the forced prefix
	Tolerant bool                // go on, as well as possible, with executions that are not deterministic
	reset    func()
}

// Explore runs the depth-first search.
func (e *Explorer) Explore() *Result {
	r := &Result{}
	visited := make(map[uint64]int32)
	finals := make(map[uint64]struct{})
	var stack []node
	if e.reset == nil {
		e.reset = takeSnapshot()
	}
	defer e.reset()
	for {
		if e.MaxExec > 0 && r.Executions >= e.MaxExec {
			return r.fin(visited, finals)
		}
		if !e.Deadline.IsZero() && r.Executions%32 == 0 && time.Now().After(e.Deadline) {
			return r.fin(visited, finals)
		}
		r.Executions++
		if e.OnStart != nil {
			e.OnStart(picks(stack))
		}
		if r.Executions > 1 {
			e.reset()
		}
		depth := 0
		bad := ""
		choose := func(n int, costs []cost, key uint64, cur int) int {
			if e.Tolerant && depth < len(stack) && (stack[depth].n != n || stack[depth].key != key) {
				r.Mismatches++
				stack = stack[:depth]
			}
			if depth < len(stack) {
				d := &stack[depth]
				if d.n != n || d.key != key {
					bad = fmt.Sprintf("execution is not deterministic: decision %d had %d alternatives in state %x, now %d in %x", depth, d.n, d.key, n, key)
					return -1
				}
				depth++
				return d.pick
			}
			pre, env := e.Cfg.Preempt, e.Cfg.Env
			if len(stack) > 0 {
				p := &stack[len(stack)-1]
				pre, env = p.pre, p.env
				if pre >= 0 {
					pre -= p.costs[p.pick].pre
				}
				if env >= 0 {
					env -= p.costs[p.pick].env
				}
			}
			vk := key
			if env >= 0 {
				vk = mix2(vk, uint64(env)+1)
			}
			left := int32(pre)
			if pre < 0 {
				left = 1 << 30
			}
			if v, ok := visited[vk]; ok && v >= left {
				return -1
			}
			visited[vk] = left
			stack = append(stack, node{n: n, costs: append([]cost(nil), costs...), pick: 0, key: key, pre: pre, env: env})
			depth++
			r.Transitions++
			return 0
		}
		out := run(e.Cfg, e.Body, choose)
		r.Steps += out.Steps
		if out.Threads > r.MaxThreads {
			r.MaxThreads = out.Threads
		}
		if out.Steps > r.MaxSteps {
			r.MaxSteps = out.Steps
		}
		if bad != "" {
			r.Err = bad
			return r.fin(visited, finals)
		}
		if r.Mismatches > 1000 {
			return r.fin(visited, finals)
		}
		if !out.Pruned {
			r.Complete++
			finals[out.Final] = struct{}{}
		}
		msg := ""
		if out.Races > 0 {
			msg = fmt.Sprintf("data race (%d reports of the happens-before race detector)", out.Races)
		} else if !out.Pruned {
			if out.Panic != "" {
				msg = "panic in " + out.PanicIn + ": " + out.Panic
			} else {
				msg = e.Check(out)
			}
		}
		if msg != "" {
			r.Bad = msg
			r.BadChoices = picks(stack)
			return r.fin(visited, finals)
		}
		// backtrack
		for len(stack) > 0 {
			d := &stack[len(stack)-1]
			next := -1
			for i := d.pick + 1; i < d.n; i++ {
				if (d.pre < 0 || d.costs[i].pre <= d.pre) && (d.env < 0 || d.costs[i].env <= d.env) {
					next = i
					break
				}
			}
			if next >= 0 {
				d.pick = next
				r.Transitions++
				break
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			r.Exhausted = r.Mismatches == 0
			return r.fin(visited, finals)
		}
	}
}

func (r *Result) fin(v map[uint64]int32, f map[uint64]struct{}) *Result {
	r.States = len(v)
	r.FinalStates = len(f)
	return r
}

func picks(s []node) []int {
	p := make([]int, len(s))
	for i := range s {
		p[i] = s[i].pick
	}
	return p
}

// Replay runs the execution with the given decisions (0 beyond them), with a trace.
func (e *Explorer) Replay(choices []int) (*Outcome, string) {
	cfg := e.Cfg
	cfg.Trace = true
	i := 0
	bad := ""
	if e.OnStart != nil {
		e.OnStart(choices)
	}
	if e.reset == nil {
		e.reset = takeSnapshot()
	}
	e.reset()
	defer e.reset()
	out := run(cfg, e.Body, func(n int, costs []cost, key uint64, cur int) int {
		p := 0
		if i < len(choices) {
			p = choices[i]
		}
		i++
		if p >= n {
			bad = fmt.Sprintf("decision %d: %d of %d alternatives", i-1, p, n)
			return -1
		}
		return p
	})
	if bad != "" {
		return out, "replay does not fit the program: " + bad
	}
	msg := ""
	if out.Panic != "" {
		msg = "panic in " + out.PanicIn + ": " + out.Panic
	} else {
		msg = e.Check(out)
	}
	if out.Races > 0 {
		msg = "data race"
	}
	return out, msg
}

// Progress counts scheduling steps, for a watchdog.
func Progress() int64 { return progress.Load() }
