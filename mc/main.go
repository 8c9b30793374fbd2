package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type report struct {
	Unit        int
	Name        string
	States      int64
	Transitions int64
	Traces      int64
	Executions  int64
	Incomplete  bool
	Samples     []string
	Known       []string
	Failure     *Failure
	Broken      string
	Seconds     float64
	part        int
	before      []int
}

// KnownFinding is an entry of known_findings.json that is not repaired.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Match    string `json:"match"` // what identifies the failing input, call site or history
	What     string `json:"what"`
}

// Main is the entry point of the check programs.
func Main(props []*Property) {
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	evidence := flag.String("evidence", "", "evidence file")
	replays := flag.String("replays", "", "directory of replay files")
	worker := flag.Bool("worker", false, "worker process")
	replay := flag.String("replay", "", "replay file to run again")
	budget := flag.Duration("budget", 0, "stop exploring after this")
	only := flag.String("only", "", "run the units whose name contains this")
	list := flag.Bool("list", false, "list the units")
	describe := flag.Bool("describe", false, "describe the check for the program that includes it")
	also := flag.String("also", "", "program with more units of the property")
	flag.Parse()
	var p *Property
	for _, q := range props {
		if q.ID == *id {
			p = q
		}
	}
	if p == nil {
		fmt.Println("unknown property", *id)
		os.Exit(2)
	}
	if p.Hang == 0 {
		p.Hang = 60 * time.Second
	}
	units := p.Units(*tier == "thorough")
	switch {
	case *list:
		for i, u := range units {
			fmt.Println(i, u.Name)
		}
	case *describe:
		json.NewEncoder(os.Stdout).Encode(describeProp(p, units, *tier))
	case *worker:
		workerMain(p, units, *tier == "thorough")
	case *replay != "":
		os.Exit(replayMain(p, *replay, *also))
	default:
		parts := []*part{describeProp(p, units, *tier)}
		if *also != "" {
			q, err := readPart(*also, p.ID, *tier)
			if err != nil {
				fmt.Println("ERROR:", *also, err)
				os.Exit(2)
			}
			parts = append(parts, q)
		}
		os.Exit(masterMain(p, parts, *tier, *evidence, *replays, *budget, *only))
	}
}

// part is one of the programs that decide a property.
type part struct {
	Exe    string
	Names  []string
	Bounds string
	Assume []string
	Flaky  bool
}

func describeProp(p *Property, units []Unit, tier string) *part {
	q := &part{Exe: os.Args[0], Bounds: p.Bounds(tier == "thorough"), Assume: p.Assume, Flaky: p.Flaky}
	for _, u := range units {
		q.Names = append(q.Names, u.Name)
	}
	return q
}

func readPart(exe, id, tier string) (*part, error) {
	b, err := exec.Command(exe, "-prop", id, "-tier", tier, "-describe").Output()
	if err != nil {
		return nil, err
	}
	q := new(part)
	err = json.Unmarshal(b, q)
	q.Exe = exe
	return q, err
}

type job struct {
	Unit     int
	Deadline int64 // unix nanoseconds
	Replay   *Failure
}

func workerMain(p *Property, units []Unit, thorough bool) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	var mu sync.Mutex
	busy := false
	cur := 0
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			n := progress()
			mu.Lock()
			b := busy
			mu.Unlock()
			if !b || n != last {
				last, since = n, time.Now()
				continue
			}
			if time.Since(since) > p.Hang {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				mu.Lock()
				json.NewEncoder(out).Encode(report{Unit: cur, Name: units[cur].Name, Failure: &Failure{Msg: "no progress for " + p.Hang.String() + ": the code under test hangs\n" + string(buf), Index: -1}})
				out.Flush()
				os.Exit(0)
			}
		}
	}()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c := &C{replay: j.Replay, Thorough: thorough}
		if j.Deadline != 0 {
			c.Deadline = time.Unix(0, j.Deadline)
		}
		mu.Lock()
		busy, cur = true, j.Unit
		mu.Unlock()
		t := time.Now()
		f, brk := runUnit(units[j.Unit], c)
		r := report{Unit: j.Unit, Name: units[j.Unit].Name, States: c.States, Transitions: c.Transitions, Traces: c.Traces, Executions: c.Executions, Incomplete: c.Incomplete,
			Samples: c.Samples, Known: c.Known, Failure: f, Broken: brk, Seconds: time.Since(t).Seconds()}
		mu.Lock()
		busy = false
		if err := json.NewEncoder(out).Encode(r); err != nil {
			os.Exit(2)
		}
		out.Flush()
		mu.Unlock()
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 { // keep both ends
		t.b = append(append(append([]byte(nil), t.b[:1<<14]...), "\n...\n"...), t.b[len(t.b)-(1<<14):]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func start(id string, q *part, tier string) (*proc, error) {
	w := &proc{stderr: &tail{}}
	w.cmd = exec.Command(q.Exe, "-prop", id, "-tier", tier, "-worker")
	w.cmd.Stderr = w.stderr
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0", "GOTRACEBACK=all")
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}

// do runs a job; the process is dead if alive is false.
func (w *proc) do(j job) (r report, alive bool) {
	b, _ := json.Marshal(j)
	w.in.Write(append(b, '\n'))
	line, err := w.out.ReadBytes('\n')
	if err == nil {
		err = json.Unmarshal(line, &r)
	}
	if err != nil {
		w.cmd.Process.Kill()
		werr := w.cmd.Wait()
		r = report{Unit: j.Unit, Failure: &Failure{Msg: fmt.Sprintf("the process died: %v\n%s", werr, w.stderr.String()), Index: -1}}
		if s, ok := werr.(*exec.ExitError); ok && s.ExitCode() < 0 && strings.Contains(s.Error(), "killed") {
			r.Broken, r.Failure = "worker killed from outside: "+werr.Error(), nil
		}
		return r, false
	}
	if strings.HasPrefix(failMsg(r), "no progress") {
		w.cmd.Wait()
		return r, false
	}
	if r.Failure != nil && strings.Contains(r.Failure.Msg, "data race") {
		r.Failure.Msg += "\n" + w.stderr.String()
	}
	return r, true
}

func failMsg(r report) string {
	if r.Failure == nil {
		return ""
	}
	return r.Failure.Msg
}

func (w *proc) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// confirm runs the failing case again in a new process.
func confirm(id string, q *part, tier string, u int, f *Failure) (*Failure, bool) {
	w, err := start(id, q, tier)
	if err != nil {
		return nil, false
	}
	defer w.stop()
	j := job{Unit: u, Replay: f}
	if f.Index < 0 || f.Whole { // the whole unit
		j.Replay = nil
	}
	for _, b := range f.Before {
		if r, alive := w.do(job{Unit: b}); !alive || r.Failure != nil {
			return r.Failure, r.Broken == ""
		}
	}
	r, _ := w.do(j)
	return r.Failure, r.Broken == ""
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 500 {
		s = s[:500]
	}
	return s
}

type replayFile struct {
	Property string   `json:"property"`
	Part     int      `json:"part"`
	Tier     string   `json:"tier"`
	Unit     int      `json:"unit"`
	Name     string   `json:"unit_name"`
	Failure  *Failure `json:"failure"`
	How      string   `json:"how"`
}

func masterMain(p *Property, parts []*part, tier, evidence, replays string, budget time.Duration, only string) int {
	begin := time.Now()
	var deadline int64
	if budget > 0 {
		deadline = begin.Add(budget).UnixNano()
	}
	known := loadKnown(p.ID)
	jobs := p.Jobs
	if jobs == 0 {
		jobs = runtime.NumCPU()
	}
	type unitOf struct{ part, unit int }
	var todo []unitOf
	total := 0
	for k, q := range parts {
		for i, n := range q.Names {
			total++
			if only == "" || strings.Contains(n, only) {
				todo = append(todo, unitOf{k, i})
			}
		}
	}
	if jobs > len(todo) {
		jobs = len(todo)
	}
	var mu sync.Mutex
	var reports []report
	var bads []*report
	var brk *report
	next := 0
	found := make(chan struct{}) // closed once there is no need to look further
	enough := func() {
		if len(bads) > 3 || len(bads) > 0 && !parts[bads[len(bads)-1].part].Flaky {
			select {
			case <-found:
			default:
				close(found)
			}
		}
	}
	running := map[*proc]bool{}
	over := make(chan struct{})
	hurry := false // the units still running are given up
	go func() {
		select {
		case <-over:
			return
		case <-found:
		}
		select {
		case <-over:
			return
		case <-time.After(5 * time.Second):
		}
		mu.Lock()
		hurry = true
		for w := range running {
			w.cmd.Process.Kill()
		}
		mu.Unlock()
	}()
	var wg sync.WaitGroup
	for k := 0; k < jobs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *proc
			var hist []int // the units run by w
			of := 0
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				done := next >= len(todo) || brk != nil
				select {
				case <-found:
					done = true
				default:
				}
				if done {
					mu.Unlock()
					return
				}
				u := todo[next]
				next++
				mu.Unlock()
				if w != nil && of != u.part {
					w.stop()
					w = nil
				}
				if w == nil {
					var err error
					of = u.part
					hist = nil
					if w, err = start(p.ID, parts[of], tier); err != nil {
						mu.Lock()
						brk = &report{Broken: err.Error()}
						mu.Unlock()
						w = nil
						return
					}
				}
				mu.Lock()
				if hurry {
					mu.Unlock()
					return
				}
				running[w] = true
				mu.Unlock()
				r, alive := w.do(job{Unit: u.unit, Deadline: deadline})
				r.Name = parts[of].Names[u.unit]
				r.part = of
				r.before = append([]int(nil), hist...)
				hist = append(hist, u.unit)
				mu.Lock()
				delete(running, w)
				if hurry && !alive {
					w = nil
					mu.Unlock()
					return
				}
				mu.Unlock()
				if !alive {
					w = nil
				}
				mu.Lock()
				if r.Failure != nil {
					bads = append(bads, &r)
					enough()
				}
				if r.Broken != "" && brk == nil {
					brk = &r
				}
				reports = append(reports, r)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	close(over)
	violations := 0
	code := 0
	var note string
	var bad *report
	// the failures which cannot depend on the machine come first
	sort.SliceStable(bads, func(i, j int) bool { return !parts[bads[i].part].Flaky && parts[bads[j].part].Flaky })
	for _, b := range bads {
		need, tries := 1, 8
		if parts[b.part].Flaky {
			need, tries = 2, 3
		}
		got := 0
		f := b.Failure
		for i := 0; i < tries && got < need; i++ {
			if g, ok := confirm(p.ID, parts[b.part], tier, b.Unit, b.Failure); ok && g != nil {
				f = g
				got++
			}
		}
		if got < need && !parts[b.part].Flaky {
			// what happened before may matter: the cases before it in the unit, the units before it in the process
			h := *b.Failure
			h.Whole = true
			for _, before := range [][]int{nil, b.before} {
				h.Before = before
				if g, ok := confirm(p.ID, parts[b.part], tier, b.Unit, &h); ok && g != nil {
					g.Whole, g.Before = true, before
					f = g
					got = need
					break
				}
			}
		}
		if got >= need {
			bad = b
			violations = 1
			code = 1
			path := writeReplay(replays, p, tier, b, f)
			fmt.Printf("%s: %s\n", b.Name, clip(f.Msg, 6000))
			printTrace(f.Trace)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			break
		}
		if parts[b.part].Flaky {
			note = "a failure of " + b.Name + " did not reproduce and is not counted: " + firstLine(b.Failure.Msg)
			fmt.Println(note)
			continue
		}
		fmt.Printf("%s: %s\n", b.Name, clip(b.Failure.Msg, 6000))
		fmt.Println("ERROR: the failure did not reproduce in a new process")
		code = 2
	}
	if code == 0 && brk != nil {
		fmt.Printf("ERROR: %s: %s\n", brk.Name, brk.Broken)
		code = 2
	}
	var tot report
	var samples []interface{}
	seen := map[string]bool{}
	sort.Slice(reports, func(i, j int) bool {
		if reports[i].part != reports[j].part {
			return reports[i].part < reports[j].part
		}
		return reports[i].Unit < reports[j].Unit
	})
	for _, r := range reports {
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Executions += r.Executions
		tot.Incomplete = tot.Incomplete || r.Incomplete
		for _, k := range r.Known {
			if !seen[k] {
				seen[k] = true
				for _, f := range known {
					if f.Match == k {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
					}
				}
			}
		}
	}
	for n := 0; n < 3; n++ { // spread the samples over the units
		for _, r := range reports {
			if n < len(r.Samples) && len(samples) < 24 {
				samples = append(samples, r.Name+": "+r.Samples[n])
			}
		}
	}
	exhaustive := !tot.Incomplete && len(bads) == 0 && brk == nil && len(reports) == total
	bounds, assume := "", []string{}
	for k, q := range parts {
		if k > 0 {
			bounds += "; "
		}
		bounds += q.Bounds
		for _, a := range q.Assume {
			if !contains(assume, a) {
				assume = append(assume, a)
			}
		}
	}
	if evidence != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		cov := map[string]interface{}{
			"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Traces,
			"units": len(reports), "exhaustive": exhaustive, "bounds": bounds,
			"samples": samples,
		}
		if tot.Executions != tot.Traces { // some executions stopped in a state explored before
			cov["executions"] = tot.Executions
		}
		if note != "" {
			cov["note"] = note
		}
		if violations > 0 {
			cov["violation"] = firstLine(bad.Failure.Msg)
		}
		ev := map[string]interface{}{"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
			"assumptions": assume, "wall_s": time.Since(begin).Seconds(), "violations": violations}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, append(b, '\n'), 0644); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
	}
	slow := reports
	sort.Slice(slow, func(i, j int) bool { return slow[i].Seconds > slow[j].Seconds })
	fmt.Printf("%s %s: %d units, %d states, %d transitions, %d traces, %d executions, exhaustive %v, %.1fs\n", p.ID, tier, len(reports), tot.States, tot.Transitions, tot.Traces, tot.Executions, exhaustive, time.Since(begin).Seconds())
	if os.Getenv("MC_SLOW") != "" {
		for i := 0; i < len(slow) && i < 15; i++ {
			fmt.Printf("  %6.2fs %9d states %9d exec %s\n", slow[i].Seconds, slow[i].States, slow[i].Executions, slow[i].Name)
		}
	}
	return code
}

func printTrace(l []string) {
	for i, t := range l {
		if i == 120 && len(l) > 200 {
			fmt.Printf("   ... %d lines ...\n", len(l)-200)
		}
		if i < 120 || i >= len(l)-80 {
			fmt.Println("  ", clip(t, 400))
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func loadKnown(id string) (l []KnownFinding) {
	var all []KnownFinding
	b, err := os.ReadFile("/verif/known_findings.json")
	if err != nil {
		return nil
	}
	if json.Unmarshal(b, &all) != nil {
		return nil
	}
	for _, k := range all {
		if k.Property == id && k.Status == "open" {
			l = append(l, k)
		}
	}
	return
}

func writeReplay(dir string, p *Property, tier string, r *report, f *Failure) string {
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, p.ID+".json")
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetIndent("", " ")
	e.SetEscapeHTML(false)
	if f != nil && len(f.Trace) > 2000 {
		f.Trace = append(append(append([]string(nil), f.Trace[:1000]...), "..."), f.Trace[len(f.Trace)-1000:]...)
	}
	e.Encode(replayFile{p.ID, r.part, tier, r.Unit, r.Name, f, "bash /verif/run.sh " + p.ID + " replay " + path})
	os.WriteFile(path, b.Bytes(), 0644)
	return path
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func replayMain(p *Property, path, also string) int {
	b, err := os.ReadFile(path)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	q := &part{Exe: os.Args[0]}
	if rf.Part > 0 {
		q.Exe = also
	}
	f, ok := confirm(p.ID, q, rf.Tier, rf.Unit, rf.Failure)
	if !ok {
		fmt.Println("ERROR: the replay could not be run")
		return 2
	}
	if f == nil {
		fmt.Println("the recorded case passes now")
		return 0
	}
	fmt.Println(f.Msg)
	printTrace(f.Trace)
	return 1
}
