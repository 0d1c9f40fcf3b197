//go:build go1.25

package h

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simnet"
	"github.com/qiniu/uip/verifsim/simos"
	"github.com/qiniu/uip/verifsim/simrand"
)

// Verdict of one case; nil when the property held.
type Verdict struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Trace string `json:"trace,omitempty"`
}

func bad(class, f string, a ...any) *Verdict {
	return &Verdict{Class: class, Msg: clip(fmt.Sprintf(f, a...), 4000)}
}

// invalid is for cases that shrinking made meaningless.
func invalid(f string, a ...any) *Verdict {
	return &Verdict{Class: "invalid", Msg: fmt.Sprintf(f, a...)}
}

// Ctx is what a case may record while it runs.
type Ctx struct {
	Tier       string
	Nontrivial bool
	Segs       []rt.Seg // the schedule that was followed
	Steps      int
	Extra      uint64 // mixed into the case's identity (schedule, images ...)
	n          int
}

// Eval counts additional executions inside a case (crash images, probes).
func (c *Ctx) Eval(n int) { c.n += n }

// Prop is one property's workload and oracle.
type Prop struct {
	ID   string
	Gen  func(r *Rand, tier string) any
	New  func() any
	Run  func(c any, x *Ctx) *Verdict
	Rule string
	// Real and Stub name the components that ran as shipped or were simulated.
	Real []string
	Stub []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

var probes = map[string]int64{}

// Probe counts that a rare condition was reached.
func Probe(name string) { probes[name]++ }

type job struct {
	Mode  string `json:"mode"` // run, replay, info
	Prop  string `json:"prop"`
	Tier  string `json:"tier"`
	Seed  uint64 `json:"seed"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	Step  int    `json:"step"`
	Out   string `json:"out"`
	Mark  string `json:"mark"`
	File  string `json:"file"`  // replay: the case
	Limit int    `json:"limit"` // seconds
	Log   bool   `json:"log"`   // keep a per-case log (determinism test)
	AS    uint64 `json:"as"`
	Again int    `json:"again,omitempty"` // replay: repetitions of the last case
}

type failure struct {
	Index   int             `json:"index"`
	Seed    uint64          `json:"seed"`
	Verdict *Verdict        `json:"verdict"`
	Case    json.RawMessage `json:"case"`
	Segs    []rt.Seg        `json:"segs,omitempty"`
}

type result struct {
	Done     int               `json:"done"` // cases executed
	Evals    int64             `json:"evals"`
	Next     int               `json:"next"`
	Failure  *failure          `json:"failure,omitempty"`
	Verdict  *Verdict          `json:"verdict,omitempty"` // replay
	Fired    map[string]int    `json:"fired"`
	Probes   map[string]int64  `json:"probes"`
	Hashes   []uint64          `json:"hashes"` // identities of nontrivial cases
	Scheds   []uint64          `json:"scheds"` // identities of interleavings
	Sites    []int             `json:"sites"`  // yield sites reached
	NSites   int               `json:"nsites"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	SimNS    int64             `json:"sim_ns"`
	MapIters int64             `json:"map_iters"`
	Jumps    int               `json:"clock_jumps"`
	WallNS   int64             `json:"wall_ns"`
	Samples  []json.RawMessage `json:"samples"`
	Log      []string          `json:"log,omitempty"`
	Rule     string            `json:"rule"`
	Real     []string          `json:"real"`
	Stub     []string          `json:"stub"`
	Case     json.RawMessage   `json:"case,omitempty"`
	Segs     []rt.Seg          `json:"segs,omitempty"`
	TimedOut bool              `json:"timed_out,omitempty"`
	At       int               `json:"at,omitempty"`
}

func worker(t *testing.T) {
	// the goroutines behind these belong to no bubble
	signal.Notify(make(chan os.Signal, 1), syscall.SIGWINCH)
	net.LookupPort("tcp", "http")
	b, err := os.ReadFile(os.Getenv("SIM_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	var j job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	p := props[j.Prop]
	if p == nil {
		t.Fatalf("unknown property %q", j.Prop)
	}
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	if j.AS > 0 && !rt.RaceBuild {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: j.AS, Max: j.AS})
		debug.SetMemoryLimit(int64(j.AS / 2))
	}
	log.SetOutput(io.Discard)
	if nul, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = nul
	}
	rt.SiteSeen = make([]bool, len(siteNames))
	w := &wk{j: j, p: p, mark: -1}
	w.res.Rule, w.res.Real, w.res.Stub = p.Rule, p.Real, p.Stub
	w.res.NSites = len(siteNames)
	if j.Mark != "" {
		w.mark, err = syscall.Open(j.Mark, syscall.O_CREAT|syscall.O_WRONLY, 0644)
		if err != nil {
			t.Fatal(err)
		}
	}
	w.start = time.Now()
	switch j.Mode {
	case "replay":
		b, err := os.ReadFile(j.File)
		if err != nil {
			t.Fatal(err)
		}
		// a history: all cases in one process; the last is the one in question
		var cases []json.RawMessage
		if err := json.Unmarshal(b, &cases); err != nil {
			t.Fatal("bad replay input")
		}
		x := &Ctx{Tier: j.Tier}
		for i, raw := range cases {
			c := p.New()
			if err := json.Unmarshal(raw, c); err != nil {
				w.res.Verdict = invalid("%v", err)
				w.flush()
				return
			}
			x = &Ctx{Tier: j.Tier}
			w.note(i)
			again := 0
			if i == len(cases)-1 && rt.RaceBuild {
				again = j.Again
			}
			for ; ; again-- {
				w.res.Verdict = w.one(t, c, x, i)
				w.res.At = i
				if w.res.Verdict != nil || again <= 0 {
					break
				}
				c = p.New()
				_ = json.Unmarshal(raw, c)
				x = &Ctx{Tier: j.Tier}
			}
			if w.res.Verdict != nil {
				break
			}
		}
		w.note(-1)
		w.res.Segs = x.Segs
		w.flush()
	case "run":
		w.run(t)
	}
}

type wk struct {
	j      job
	p      *Prop
	res    result
	mark   int
	start  time.Time
	hashes map[uint64]bool
	scheds map[uint64]bool
}

func (w *wk) flush() {
	r := &w.res
	r.Fired = simos.Fired
	r.Probes = probes
	r.Steps = rt.TotalSteps
	r.Switches = rt.TotalSwitches
	r.SimNS = int64(rt.SimElapsed)
	r.MapIters = rt.MapIters
	r.Jumps = rt.ClockJumps
	r.WallNS = int64(time.Since(w.start))
	r.Sites = nil
	for i, s := range rt.SiteSeen {
		if s {
			r.Sites = append(r.Sites, i)
		}
	}
	r.Hashes, r.Scheds = nil, nil
	for h := range w.hashes {
		r.Hashes = append(r.Hashes, h)
	}
	for h := range w.scheds {
		r.Scheds = append(r.Scheds, h)
	}
	sort.Slice(r.Hashes, func(i, j int) bool { return r.Hashes[i] < r.Hashes[j] })
	sort.Slice(r.Scheds, func(i, j int) bool { return r.Scheds[i] < r.Scheds[j] })
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(w.j.Out+".tmp", b, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(w.j.Out+".tmp", w.j.Out); err != nil {
		panic(err)
	}
}

func (w *wk) note(i int) {
	if w.mark >= 0 {
		syscall.Pwrite(w.mark, []byte(fmt.Sprintf("%012d\n", i)), 0)
	}
}

// caseSeed is a pure function of the run's seed, the property and the index.
func caseSeed(seed uint64, prop string, i int) uint64 { return hash64(seed, prop, i) }

func (w *wk) run(t *testing.T) {
	w.hashes, w.scheds = map[uint64]bool{}, map[uint64]bool{}
	step := w.j.Step
	if step < 1 {
		step = 1
	}
	if f := os.Getenv("SIM_CASES"); f != "" { // print the generated cases, or write them into that directory
		for i := w.j.From; i < w.j.To; i += step {
			b, _ := json.Marshal(w.p.Gen(NewRand(caseSeed(w.j.Seed, w.p.ID, i)), w.j.Tier))
			if f == "1" {
				fmt.Fprintln(os.Stderr, i, string(b))
			} else {
				os.WriteFile(fmt.Sprintf("%s/%s-%d.json", f, w.p.ID, i), b, 0o644)
			}
		}
		return
	}
	for i := w.j.From; i < w.j.To; i += step {
		if w.j.Limit > 0 && time.Since(w.start) > time.Duration(w.j.Limit)*time.Second {
			w.res.TimedOut = true
			break
		}
		w.note(i)
		seed := caseSeed(w.j.Seed, w.p.ID, i)
		c := w.p.Gen(NewRand(seed), w.j.Tier)
		js, err := json.Marshal(c)
		if err != nil {
			t.Fatal(err)
		}
		x := &Ctx{Tier: w.j.Tier}
		// what runs is what a replay file would hold
		c2 := w.p.New()
		if err := json.Unmarshal(js, c2); err != nil {
			t.Fatal(err)
		}
		v := w.one(t, c2, x, i)
		w.res.Done++
		w.res.Evals += int64(1 + x.n)
		w.res.Next = i + step
		if v != nil && v.Class == "invalid" {
			t.Fatalf("generated an invalid case (seed %d index %d): %s\n%s", w.j.Seed, i, v.Msg, js)
		}
		if x.Nontrivial {
			w.hashes[hash64(hashJSON(json.RawMessage(js)), x.Extra)] = true
		}
		if rt.Multi {
			w.scheds[rt.SchedHash] = true
		}
		if len(w.res.Samples) < 2 && x.Nontrivial && len(js) < 6000 {
			w.res.Samples = append(w.res.Samples, js)
		}
		if w.j.Log {
			vc := "ok"
			if v != nil {
				vc = v.Class + " " + v.Msg
			}
			w.res.Log = append(w.res.Log, fmt.Sprintf("%d case=%x sched=%x steps=%d extra=%x %s", i, hashJSON(json.RawMessage(js)), rt.SchedHash, x.Steps, x.Extra, vc))
		}
		if v != nil {
			w.res.Failure = &failure{Index: i, Seed: seed, Verdict: v, Case: js, Segs: x.Segs}
			if !w.j.Log {
				break
			}
		}
	}
	w.note(-1)
	w.flush()
}

// one runs a case inside a bubble of its own.
func (w *wk) one(t *testing.T, c any, x *Ctx, i int) (v *Verdict) {
	rt.SchedHash = 14695981039346656037
	rt.Multi = false
	rt.SetMapSeed(0)
	resetAll() // the code under test starts as in a fresh process
	simrand.Reset(1)
	simos.Mount(nil)
	races := rt.RaceErrors()
	steps := rt.TotalSteps
	defer func() {
		// the bubble refuses to end while goroutines are blocked in it
		if r := recover(); r != nil {
			// like at the end of a process, nobody waits for them
			Probe("goroutines outlived the run")
			_ = r
		}
		x.Steps = int(rt.TotalSteps - steps)
	}()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				v = bad("panic", "panic outside a task: %v\n%s", r, st)
			}
		}()
		rt.SetClock(time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC), nil)
		simnet.Reset()
		v = w.p.Run(c, x)
		simos.Mount(nil)
		if n := rt.RaceErrors() - races; n > 0 && (v == nil || v.Class != "invalid") {
			v = bad("race", "the race detector reported %d data race(s)", n)
		}
		if v != nil && (v.Class == "deadlock" || v.Class == "leak") {
			// tasks blocked for ever cannot be removed: report and stop here
			if w.j.Mode == "replay" {
				w.res.Verdict = v
				w.res.Segs = x.Segs
			} else {
				js, _ := json.Marshal(c)
				w.res.Done++
				w.res.Failure = &failure{Index: i, Seed: caseSeed(w.j.Seed, w.p.ID, i), Verdict: v, Case: js, Segs: x.Segs}
			}
			w.note(-1)
			w.flush()
			os.Exit(0)
		}
	})
	return v
}

// verdictOf turns a crash, hang or deadlock of a run into a verdict.
func verdictOf(r *rt.Result, what string) *Verdict {
	b := r.Bad()
	if b == "" {
		return nil
	}
	cl := "panic"
	if r.Panic == "" {
		cl = "hang"
		if r.Deadlock {
			cl = "deadlock"
		}
	}
	v := bad(cl, "%s: %s", what, b)
	v.Trace = stackTop(r.Stack)
	return v
}

func outVerdict(o rt.Outcome, what string) *Verdict {
	b := o.Bad()
	if b == "" {
		return nil
	}
	cl := "panic"
	if o.Panic == "" {
		cl = "hang"
		if o.Dead {
			cl = "deadlock"
		}
	}
	v := bad(cl, "%s: %s", what, b)
	v.Trace = stackTop(o.Stack)
	return v
}

// stackTop keeps the frames of the code under test.
func stackTop(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "verifsim") || !strings.HasPrefix(l, "github.com/qiniu/uip/") || !strings.Contains(l, ".go:") {
			continue
		}
		if i := strings.Index(l, " +0x"); i > 0 {
			l = l[:i]
		}
		out = append(out, l)
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}
