//go:build go1.25

// Package rt is the simulated runtime: it decides which task runs next, how
// long it runs, what the clock says and in which order maps are iterated.
//
// Only one task executes at any time.  Instrumented code calls Y before every
// statement; Y is where the scheduler may take the processor away.  The hand
// over is hidden from the race detector, so that the detector still sees only
// the synchronisation which the program itself performs.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// Seg is one scheduling decision: run task T for N yield points.
type Seg struct {
	T int `json:"t"`
	N int `json:"n"`
}

// Sched says how scheduling decisions are made.
type Sched struct {
	Seed uint64 `json:"seed,omitempty"`
	// Kind: "" or "serial" (no preemption), "rand" (geometric quanta with
	// mean Mean), "pct" (priorities with Depth change points), "fixed" (Segs).
	Kind  string `json:"kind,omitempty"`
	Mean  int    `json:"mean,omitempty"`
	Depth int    `json:"depth,omitempty"`
	Est   int    `json:"est,omitempty"` // estimated length for pct change points
	Segs  []Seg  `json:"segs,omitempty"`
}

// Proc is a simulated process: a group of tasks that die together.
type Proc struct {
	Dead   bool
	Exited bool
	Code   int
}

// Outcome is how a task ended.
type Outcome struct {
	Done   bool // returned normally
	Panic  string
	Stack  string
	Hang   bool // exceeded its step budget
	Dead   bool // never became runnable again (deadlock)
	Killed bool // its process was killed
	Steps  int
}

func (o Outcome) Bad() string {
	switch {
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Hang:
		return fmt.Sprintf("did not finish within %d steps", o.Steps)
	case o.Dead:
		return "blocked for ever"
	}
	return ""
}

type task struct {
	id     int
	g      uintptr
	gate   chan struct{}
	parked bool
	done   bool
	kill   bool
	known  bool // started by us (not adopted)
	init   bool // of the harness
	fin    chan struct{}
	pred   func() bool
	edge   atomic.Int32
	proc   *Proc
	out    Outcome
	prio   uint64
}

type sched struct {
	mu     sync.Mutex
	tasks  []*task
	cfg    Sched
	rng    Rng
	segs   []Seg // recorded
	segPos int
	steps  int
	budget int
	chg    []int // pct change points
	low    uint64
	defPrc *Proc
}

var (
	active    bool
	curG      uintptr
	cur       *task
	countdown int
	ran       int // yields in the present quantum
	s         *sched

	// Cumulative statistics of the process.
	TotalSteps    int64
	TotalSwitches int64
	SiteSeen      []bool
	SchedHash     uint64 // hash of the interleaving of the present case
	Multi         bool   // more than one task was runnable at some decision
	SimElapsed    time.Duration
	lastSite      uint32
	byCount       bool // the present quantum ended because it was used up
)

// Y is the yield point inserted before every statement.
//
//go:norace
func Y(site uint32) {
	if !active {
		return
	}
	if getg() != curG {
		other()
	}
	if int(site) < len(SiteSeen) {
		SiteSeen[site] = true
	}
	lastSite = site
	ran++
	countdown--
	if countdown <= 0 {
		byCount = true
		expired()
	}
}

//go:norace
func expired() {
	t := cur
	s.steps += ran
	t.out.Steps += ran
	if t.kill || t.proc.Dead {
		ran = 0
		die(t)
	}
	park(t, nil)
}

//go:norace
func die(t *task) {
	raceOff()
	raceOn()
	runtime.Goexit()
}

// find returns the live task of a goroutine.
//
//go:norace
func find(g uintptr) *task {
	for i := len(s.tasks) - 1; i >= 0; i-- {
		if s.tasks[i].g == g {
			return s.tasks[i]
		}
	}
	return nil
}

// other: a goroutine that is not the current task reached a yield point: it was
// woken by a channel or timer, or it was started by uninstrumented code.
//
//go:norace
func other() {
	raceOff()
	g := getg()
	s.mu.Lock()
	t := find(g)
	if t == nil {
		t = &task{id: len(s.tasks), g: g, gate: make(chan struct{}), proc: s.defPrc}
		if cur != nil {
			t.proc = cur.proc
		}
		t.prio = s.rng.U64() | 1<<63
		s.tasks = append(s.tasks, t)
	}
	t.done = false
	t.parked = true
	s.mu.Unlock()
	<-t.gate
	raceOn()
	if t.kill || t.proc.Dead {
		die(t)
	}
}

//go:norace
func park(t *task, pred func() bool) {
	if pred != nil {
		t.edge.Store(1) // the scheduler, which evaluates pred, sees what the task wrote (but not the other way round)
	}
	raceOff()
	t.pred = pred
	t.parked = true
	<-t.gate
	t.pred = nil
	raceOn()
	if t.kill || t.proc.Dead {
		die(t)
	}
}

// Block parks the current task until pred holds.  pred runs in the scheduler.
//
//go:norace
func Block(pred func() bool) {
	if !active {
		return
	}
	for !pred() {
		if getg() != curG {
			other()
			continue
		}
		s.steps += ran
		cur.out.Steps += ran
		ran = 0
		park(cur, pred)
	}
}

// Yield gives up the rest of the quantum.
//
//go:norace
func Yield() {
	if !active {
		return
	}
	if getg() != curG {
		other()
		return
	}
	countdown = 0
	expired()
}

// InSim tells whether the caller runs inside a simulated run.
//
//go:norace
func InSim() bool { return active }

// CurProc is the process of the running task.
//
//go:norace
func CurProc() *Proc {
	if !active || cur == nil {
		return nil
	}
	return cur.proc
}

// Die kills the current task's whole process at once (crash).
//
//go:norace
func Die() {
	if active && cur != nil {
		cur.proc.Dead = true
		runtime.Goexit()
	}
}

// Exit ends the current process with a status.
//
//go:norace
func Exit(code int) {
	if active && cur != nil {
		cur.proc.Dead = true
		cur.proc.Exited = true
		cur.proc.Code = code
		runtime.Goexit()
	}
	panic(fmt.Sprintf("exit %d outside simulation", code))
}

// Go starts f as a new task.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	p := s.defPrc
	if cur != nil {
		p = cur.proc
	}
	spawn(f, p)
	if getg() == curG && countdown > 1 && s.cfg.Kind != "serial" && s.cfg.Kind != "" {
		// let the scheduler reconsider soon
		if countdown > 4 {
			countdown = 1 + int(s.rng.U64()%4)
		}
	}
}

//go:norace
func spawn(f func(), p *Proc) *task {
	raceOff()
	s.mu.Lock()
	t := &task{id: len(s.tasks), gate: make(chan struct{}), fin: make(chan struct{}), known: true, proc: p}
	t.prio = s.rng.U64() | 1<<63
	t.parked = true
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	raceOn()
	go body(t, f)
	return t
}

func body(t *task, f func()) {
	defer close(t.fin) // a real edge: the harness sees what the task wrote
	defer finish(t)
	enter(t)
	f()
	t.out.Done = true
}

//go:norace
func enter(t *task) {
	raceOff()
	t.g = getg()
	<-t.gate
	raceOn()
	if t.kill || t.proc.Dead {
		die(t)
	}
}

//go:norace
func finish(t *task) {
	if r := recover(); r != nil {
		t.out.Panic = fmt.Sprint(r)
		t.out.Stack = string(debug.Stack())
	} else if !t.out.Done && t.proc.Dead {
		t.out.Killed = true
	}
	raceOff()
	if cur == t {
		s.steps += ran
		t.out.Steps += ran
		ran = 0
	}
	t.g = 0
	t.done = true
	t.parked = false
	raceOn()
}

// Task is one initial task of a Run.
type Task struct {
	F    func()
	Proc *Proc
}

// Result of a Run.
type Result struct {
	Out      []Outcome // of the initial tasks
	Segs     []Seg
	Steps    int
	Deadlock bool
	Hang     bool
	Panic    string // of any task, adopted ones included
	Stack    string
}

// Bad returns a description of a crash, hang or deadlock of any task.
func (r *Result) Bad() string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	for _, o := range r.Out {
		if b := o.Bad(); b != "" {
			return b
		}
	}
	if r.Hang {
		return fmt.Sprintf("did not finish within %d steps", r.Steps)
	}
	if r.Deadlock {
		return "blocked for ever"
	}
	return ""
}

// Do runs f alone.
func Do(budget int, f func()) Outcome {
	r := Run(Sched{}, budget, nil, Task{F: f})
	o := r.Out[0]
	if o.Panic == "" && r.Panic != "" {
		o.Panic, o.Stack = r.Panic, r.Stack
	}
	return o
}

// Run executes the tasks under the schedule until all have ended.  stop, if
// not nil, is asked when nothing is runnable any more: it may make progress
// possible (close the network, say) and return true, once.
func Run(cfg Sched, budget int, stop func() bool, tasks ...Task) *Result {
	if active {
		panic("nested rt.Run")
	}
	lastSite = 0
	s = &sched{cfg: cfg, budget: budget, rng: NewRng(cfg.Seed ^ 0x9e3779b97f4a7c15), defPrc: &Proc{}}
	start := time.Now()
	if cfg.Kind == "pct" {
		est := cfg.Est
		if est < 10 {
			est = 2000
		}
		for i := 0; i < cfg.Depth; i++ {
			s.chg = append(s.chg, 1+int(s.rng.U64()%uint64(est)))
		}
		s.low = 1 << 32
	}
	var init []*task
	for _, t := range tasks {
		p := t.Proc
		if p == nil {
			p = s.defPrc
		}
		k := spawn(t.F, p)
		k.init = true
		init = append(init, k)
	}
	ran = 0
	byCount = false
	cur = nil
	curG = 0
	active = true
	res := loop(stop)
	active = false
	cur = nil
	curG = 0
	for _, t := range s.tasks {
		if t.done && t.known {
			<-t.fin // real happens-before edge from every task that has ended
		}
	}
	for _, t := range init {
		if !t.done && t.proc.Dead {
			t.out.Killed = true
		}
		res.Out = append(res.Out, t.out)
	}
	for _, t := range s.tasks {
		if t.out.Panic != "" && res.Panic == "" {
			res.Panic, res.Stack = t.out.Panic, t.out.Stack
		}
	}
	res.Steps = s.steps
	res.Segs = s.segs
	TotalSteps += int64(s.steps)
	SimElapsed += time.Since(start)
	return res
}

//go:norace
func loop(stop func() bool) *Result {
	res := &Result{}
	raceOff()
	defer raceOn()
	var wait, idle time.Duration
	for {
		synctest.Wait()
		var runnable []*task
		alive := 0
		for i := 0; i < len(s.tasks); i++ {
			t := s.tasks[i]
			if t.done {
				continue
			}
			if t.init && (t.parked || !t.proc.Dead) {
				alive++
			}
			if t.parked && t.pred != nil {
				raceOn()
				t.edge.Load()
				raceOff()
			}
			if t.parked && (t.pred == nil || t.proc.Dead || t.kill || t.pred()) {
				runnable = append(runnable, t)
			}
		}
		if alive == 0 && len(runnable) == 0 {
			// nobody waits for what is left in the background
			return res
		}
		if len(runnable) == 0 {
			// Something may be waiting for a timer: let simulated time pass,
			// but not for ever only because some goroutine has a ticker.
			if wait < 24*time.Hour && idle < 30*24*time.Hour {
				if wait == 0 {
					wait = time.Millisecond
				} else {
					wait *= 2
				}
				idle += wait
				time.Sleep(wait)
				continue
			}
			if stop != nil {
				raceOn()
				ok := stop()
				raceOff()
				stop = nil
				if ok {
					wait, idle = 0, 0
					continue
				}
			}
			res.Deadlock = true
			for _, t := range s.tasks {
				if !t.done && t.init {
					t.out.Dead = true
				}
			}
			return res
		}
		wait = 0
		if s.steps > s.budget && !res.Hang {
			res.Hang = true
			for _, t := range s.tasks {
				if !t.done {
					if t.known {
						t.out.Hang = true
					}
					t.kill = true
				}
			}
		}
		t, n := pick(runnable)
		if t.init || !t.known {
			idle = 0
		}
		if len(runnable) > 1 {
			Multi = true
		}
		before := s.steps
		merge := byCount
		byCount = false
		cur = t
		curG = t.g
		countdown = n
		ran = 0
		t.parked = false
		TotalSwitches++
		t.gate <- struct{}{}
		synctest.Wait()
		if ran > 0 {
			s.steps += ran
			t.out.Steps += ran
			ran = 0
		}
		used := s.steps - before
		if !byCount {
			used++ // the task stopped by itself after its last yield point
		}
		if k := len(s.segs); k > 0 && merge && s.segs[k-1].T == t.id {
			s.segs[k-1].N += used
		} else {
			s.segs = append(s.segs, Seg{t.id, used})
		}
		if len(runnable) > 1 || len(s.segs) > 1 {
			SchedHash = (SchedHash ^ uint64(t.id+1)) * 0x100000001b3
			SchedHash = (SchedHash ^ uint64(lastSite)) * 0x100000001b3
		}
		cur = nil
		curG = 0
	}
}

//go:norace
func pick(r []*task) (*task, int) {
	left := s.budget - s.steps + 1
	if left < 1 {
		left = 1
	}
	for _, t := range r {
		if t.kill || t.proc.Dead {
			return t, 1
		}
	}
	lim := func(n int) int {
		if n > left {
			return left
		}
		return n
	}
	switch s.cfg.Kind {
	case "fixed":
		for s.segPos < len(s.cfg.Segs) {
			sg := s.cfg.Segs[s.segPos]
			s.segPos++
			for _, t := range r {
				if t.id == sg.T {
					n := sg.N
					if n < 1 {
						n = 1
					}
					return t, lim(n)
				}
			}
		}
		return r[0], left
	case "rand":
		t := r[int(s.rng.U64()%uint64(len(r)))]
		if len(r) == 1 && len(s.tasks) == 1 {
			return t, left
		}
		m := s.cfg.Mean
		if m < 1 {
			m = 1
		}
		return t, lim(1 + int(s.rng.U64()%uint64(2*m)))
	case "pct":
		best := r[0]
		for _, t := range r {
			if t.prio > best.prio {
				best = t
			}
		}
		n := left
		for i, c := range s.chg {
			if c > s.steps {
				if d := c - s.steps; d < n {
					n = d
				}
			} else if c >= 0 {
				// change point reached: the task that ran falls to the bottom
				s.chg[i] = -1
				s.low--
				best.prio = s.low
				return pick(r)
			}
		}
		if best.pred != nil {
			n = lim(n)
		}
		return best, n
	}
	return r[0], left
}

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ x uint64 }

//go:norace
func NewRng(seed uint64) Rng { return Rng{seed} }

//go:norace
func (r *Rng) U64() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
