package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// config of a property's check.
type conf struct {
	race     bool // under the happens-before race detector
	quick    int  // cases
	thorough int
	level    string
	peers    bool   // with the readers in other languages
	as       uint64 // address-space limit of a worker (without race detector)
}

var confs = map[string]conf{
	"C01": {race: true, quick: 15000, thorough: 180000, level: "exploration"},
	"C02": {race: true, quick: 12000, thorough: 144000, level: "exploration"},
	"C03": {quick: 150000, thorough: 1800000, level: "fault_enumeration"},
	"C04": {quick: 36000, thorough: 432000, level: "exploration"},
	"C05": {quick: 7000, thorough: 84000, level: "fault_enumeration"},
	"C06": {quick: 250000, thorough: 3000000, level: "exploration", as: 3 << 30},
	"C07": {race: true, quick: 6000, thorough: 72000, level: "exploration"},
	"C08": {quick: 150000, thorough: 1800000, level: "exploration"},
	"C09": {race: true, quick: 30000, thorough: 360000, level: "exploration"},
	"C10": {race: true, quick: 7000, thorough: 84000, level: "exploration"},
	"C11": {quick: 200000, thorough: 2400000, level: "fault_enumeration"},
	"C12": {quick: 40000, thorough: 480000, level: "exploration"},
	"C13": {quick: 80000, thorough: 960000, level: "exploration"},
	"C15": {peers: true, quick: 26000, thorough: 312000, level: "fault_enumeration"},
	"C19": {race: true, quick: 12000, thorough: 144000, level: "exploration"},
	"C14": {quick: 120000, thorough: 1440000, level: "fault_enumeration"},
}

type job struct {
	Mode  string `json:"mode"`
	Prop  string `json:"prop"`
	Tier  string `json:"tier"`
	Seed  uint64 `json:"seed"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	Step  int    `json:"step"`
	Out   string `json:"out"`
	Mark  string `json:"mark"`
	File  string `json:"file"`
	Limit int    `json:"limit"`
	Log   bool   `json:"log"`
	AS    uint64 `json:"as"`
	Again int    `json:"again,omitempty"`
}

type verdict struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Trace string `json:"trace,omitempty"`
}

type seg struct {
	T int `json:"t"`
	N int `json:"n"`
}

type failure struct {
	Index   int             `json:"index"`
	Seed    uint64          `json:"seed"`
	Verdict *verdict        `json:"verdict"`
	Case    json.RawMessage `json:"case"`
	Segs    []seg           `json:"segs,omitempty"`
}

type result struct {
	Done     int               `json:"done"`
	Evals    int64             `json:"evals"`
	Next     int               `json:"next"`
	Failure  *failure          `json:"failure"`
	Verdict  *verdict          `json:"verdict"`
	Fired    map[string]int    `json:"fired"`
	Probes   map[string]int64  `json:"probes"`
	Hashes   []uint64          `json:"hashes"`
	Scheds   []uint64          `json:"scheds"`
	Sites    []int             `json:"sites"`
	NSites   int               `json:"nsites"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	SimNS    int64             `json:"sim_ns"`
	MapIters int64             `json:"map_iters"`
	Jumps    int               `json:"clock_jumps"`
	Samples  []json.RawMessage `json:"samples"`
	Log      []string          `json:"log"`
	Rule     string            `json:"rule"`
	Real     []string          `json:"real"`
	Stub     []string          `json:"stub"`
	Segs     []seg             `json:"segs"`
	TimedOut bool              `json:"timed_out"`
	At       int               `json:"at"`
}

type runner struct {
	b    *build
	prop string
	cf   conf
	tier string
	seed uint64
	n    int
	mu   sync.Mutex
	seq  int

	// how often the last case of a history is repeated if it passes: the race
	// detector remembers only some of the accesses, so that one run of a
	// schedule with a race may go unreported
	again int
}

const raceRepeats = 40

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if v, err := strconv.Atoi(os.Getenv("SIM_WORKERS")); err == nil && v > 0 {
		n = v
	}
	return n
}

func (r *runner) bin() string {
	if r.cf.race {
		return r.b.race
	}
	return r.b.plain
}

// errStall: no case finished for a long time.
var errStall = errors.New("stalled")

// errInit: the repository's packages crash while they are initialised, so that
// no program using them starts.
var errInit = errors.New("crash at start")

var initPanic = regexp.MustCompile(`(?s)^(panic|fatal error): .*\ngithub\.com/qiniu/uip/(db|ipnet|cmd)[^\n]*\.(init|siminit)[^\n]*\n`)

func initVerdict(stderr string) *verdict {
	return &verdict{Class: "crash:init", Msg: "the packages crash when a program starts: " + firstLines(stderr, 1), Trace: firstLines(stderr, 25)}
}

// launch runs one worker process.  A nil result with a nil error means that the
// process crashed; mark is then the case it was running.
func (r *runner) launch(j job, wall time.Duration) (res *result, mark int, stderr string, err error) {
	r.mu.Lock()
	r.seq++
	id := r.seq
	r.mu.Unlock()
	base := filepath.Join(r.b.dir, fmt.Sprintf("job%d", id))
	j.Prop, j.Tier = r.prop, r.tier
	j.Out, j.Mark, j.AS = base+".out", base+".mark", r.cf.as
	b, _ := json.Marshal(j)
	if err := os.WriteFile(base+".json", b, 0644); err != nil {
		return nil, -1, "", err
	}
	defer func() {
		for _, s := range []string{".out", ".mark", ".json", ".err"} {
			os.Remove(base + s)
		}
	}()
	ef, err := os.Create(base + ".err")
	if err != nil {
		return nil, -1, "", err
	}
	defer ef.Close()
	cmd := exec.Command(r.bin(), "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Dir = r.b.dir
	cmd.Env = append(workerEnv(base+".json"), "SIM_DIR="+r.b.dir)
	cmd.Stdout, cmd.Stderr = ef, ef
	if err := cmd.Start(); err != nil {
		return nil, -1, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	stalled := false
	last, lastAt := "", time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case <-done:
			break wait
		case <-tick.C:
			m, _ := os.ReadFile(base + ".mark")
			if string(m) != last {
				last, lastAt = string(m), time.Now()
			}
			if time.Since(lastAt) > wall {
				stalled = true
				cmd.Process.Kill()
				<-done
				break wait
			}
		}
	}
	mark = -1
	if m, err := os.ReadFile(base + ".mark"); err == nil && len(m) >= 12 {
		mark, _ = strconv.Atoi(strings.TrimLeft(string(m[:12]), "0"))
		if strings.TrimLeft(string(m[:12]), "0") == "" {
			mark = 0
		}
	}
	stderr = tail(base + ".err")
	if stalled {
		return nil, mark, stderr, errStall
	}
	ob, err := os.ReadFile(base + ".out")
	if err != nil {
		if mark < 0 {
			if initPanic.MatchString(stderr) {
				return nil, mark, stderr, errInit
			}
			return nil, mark, stderr, fmt.Errorf("worker gave no result: %s", stderr)
		}
		if strings.Contains(stderr, "generated an invalid case") || strings.Contains(stderr, "bad replay input") {
			return nil, mark, stderr, fmt.Errorf("harness: %s", stderr)
		}
		return nil, mark, stderr, nil
	}
	res = &result{}
	if err := json.Unmarshal(ob, res); err != nil {
		return nil, mark, stderr, err
	}
	return res, mark, stderr, nil
}

func workerEnv(jobFile string) []string {
	var env []string
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GODEBUG", "GORACE", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", "GOTRACEBACK", "TZ":
			continue
		}
		env = append(env, e)
	}
	return append(env, "SIM_JOB="+jobFile, "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "TZ=UTC", "GOGC=200")
}

func tail(name string) string {
	b, _ := os.ReadFile(name)
	head := b
	if len(head) > 6000 {
		head = append(append(head[:3000:3000], "\n...\n"...), b[len(b)-2900:]...)
	}
	return string(head)
}

var raceNoise = regexp.MustCompile(` at 0x[0-9a-f]+|(goroutine) [0-9]+| \+0x[0-9a-f]+`)

// crashClass names what ended a process.
func crashClass(stderr string) *verdict {
	if strings.Contains(stderr, "WARNING: DATA RACE") {
		// memory addresses and goroutine numbers differ from run to run
		m := raceNoise.ReplaceAllString(stderr, "$1")
		return &verdict{Class: "race", Msg: "the race detector reports:\n" + firstLines(m, 14)}
	}
	v := &verdict{Class: "crash", Msg: "the process died: " + firstLines(stderr, 12)}
	for _, k := range []string{"stack overflow", "goroutine stack exceeds", "out of memory", "cannot allocate memory", "concurrent map", "all goroutines are asleep", "deadlock"} {
		if strings.Contains(stderr, k) {
			v.Class = "crash:" + strings.ReplaceAll(k, " ", "-")
			break
		}
	}
	if v.Class == "crash:goroutine-stack-exceeds" {
		v.Class = "crash:stack-overflow"
	}
	if v.Class == "crash:cannot-allocate-memory" {
		v.Class = "crash:out-of-memory"
	}
	return v
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// attempt runs a history of cases in a fresh process.
func (r *runner) attempt(cases []json.RawMessage) (*verdict, *result, string, error) {
	r.mu.Lock()
	r.seq++
	f := filepath.Join(r.b.dir, fmt.Sprintf("hist%d.json", r.seq))
	r.mu.Unlock()
	b, err := json.Marshal(cases)
	if err != nil {
		return nil, nil, "", err
	}
	if err := os.WriteFile(f, b, 0644); err != nil {
		return nil, nil, "", err
	}
	defer os.Remove(f)
	res, _, se, err := r.launch(job{Mode: "replay", File: f, Again: r.again}, 100*time.Second)
	if err == errStall {
		return &verdict{Class: "stall", Msg: "the case did not end within 100 s of real time"}, &result{}, se, nil
	}
	if err == errInit {
		return initVerdict(se), &result{}, se, nil
	}
	if err != nil {
		return nil, nil, se, err
	}
	if res == nil {
		return crashClass(se), &result{}, se, nil
	}
	return res.Verdict, res, se, nil
}

type trouble struct{ msg string }

func (t trouble) Error() string { return t.msg }

func newRunner(prop string) (*runner, error) {
	cf, ok := confs[prop]
	if !ok {
		return nil, fmt.Errorf("no check for %s", prop)
	}
	r := &runner{prop: prop, cf: cf, tier: os.Getenv("VERIF_TIER"), seed: 1}
	if r.tier != "thorough" {
		r.tier = "quick"
	}
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.seed = v
	} else if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.seed = uint64(v)
		}
	}
	r.n = cf.quick
	if r.tier == "thorough" {
		r.n = cf.thorough
	}
	if v, err := strconv.Atoi(os.Getenv("SIM_N")); err == nil && v > 0 {
		r.n = v
	}
	return r, nil
}

func (r *runner) prepare() error {
	b, err := newBuild()
	r.b = b
	if err != nil {
		return err
	}
	if err := b.compile(r.cf.race); err != nil {
		return err
	}
	if r.cf.peers {
		return b.peers()
	}
	return nil
}

func check(prop string) int {
	start := time.Now()
	r, err := newRunner(prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer func() { r.b.clean() }()
	if err := r.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, "build:", err)
		return 3
	}
	buildS := time.Since(start).Seconds()
	limit := 180
	if r.tier == "thorough" {
		limit = 660
	}
	if v, err := strconv.Atoi(os.Getenv("SIM_LIMIT")); err == nil && v > 0 {
		limit = v
	}
	runStart := time.Now()
	total, fail, err := r.explore(limit)
	runS := time.Since(runStart).Seconds()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 3
	}
	code := 0
	if fail != nil {
		path, final, err := r.report(fail)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 3
		}
		fmt.Printf("class=%s seed=%d index=%d\n%s\n%s\n", final.Class, r.seed, fail.Index, final.Msg, final.Trace)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	if err := r.evidence(total, code, buildS, runS, time.Since(start).Seconds()); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 3
	}
	if code == 0 {
		fmt.Printf("%s held: %d cases (%d executions), %d distinct non-trivial, %d interleavings, %.0f s\n", prop, total.Done, total.Evals, len(total.Hashes), len(total.Scheds), time.Since(start).Seconds())
	}
	return code
}

type found struct {
	failure
	history []json.RawMessage // earlier cases of the same process, then the failing one
	stderr  string
}

// explore runs all cases over parallel workers. A failure which cannot be
// repeated (a race whose other access the detector has forgotten) is no verdict:
// the next one is tried, and the workers go on behind it.
func (r *runner) explore(limit int) (*result, *found, error) {
	w := workers()
	if r.n < w {
		w = r.n
	}
	start := time.Now()
	from := make([]int, w)
	for i := range from {
		from[i] = i
	}
	var results []*result
	var unsettled error
	for round := 0; ; round++ {
		left := limit - int(time.Since(start).Seconds())
		if round > 0 && (round > 5 || left < 5) {
			break
		}
		rs, fails, err := r.round(from, w, left)
		if err != nil {
			return nil, nil, err
		}
		results = append(results, rs...)
		var all []*found
		for i, f := range fails {
			from[i] = r.n
			if f != nil {
				from[i] = f.Index + w
				all = append(all, f)
			}
		}
		if len(all) == 0 {
			break
		}
		sort.Slice(all, func(i, j int) bool { return all[i].Index < all[j].Index })
		for _, f := range all {
			if f.Verdict.Class == "crash:init" {
				return merge(results), f, nil
			}
			err := r.settle(f, w)
			if err == nil {
				return merge(results), f, nil
			}
			r.again = 0
			if f.Verdict.Class != "race" {
				return nil, nil, err
			}
			fmt.Fprintln(os.Stderr, "not settled:", firstLines(err.Error(), 3))
			unsettled = err
		}
	}
	if unsettled != nil && r.cf.race {
		// what the race leads to may show without the detector
		r.cf.race = false
		if err := r.b.compile(false); err != nil {
			return nil, nil, err
		}
		if res, f, err := r.explore(60); err == nil && f != nil {
			return res, f, nil
		}
	}
	return merge(results), nil, unsettled
}

// round runs the cases from[i], from[i]+w, ... of every worker i up to its first failure.
func (r *runner) round(from []int, w, limit int) ([]*result, []*found, error) {
	results := make([]*result, w)
	fails := make([]*found, w)
	errs := make([]error, w)
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		if from[i] >= r.n {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res, mark, se, err := r.launch(job{Mode: "run", Seed: r.seed, From: from[i], To: r.n, Step: w, Limit: limit}, 120*time.Second)
			if err == errInit {
				fails[i] = &found{stderr: se}
				fails[i].Verdict = initVerdict(se)
				return
			}
			if err != nil && err != errStall {
				errs[i] = err
				return
			}
			if res != nil && res.Failure == nil {
				results[i] = res
				return
			}
			f := &found{stderr: se}
			if res != nil {
				results[i] = res
				f.failure = *res.Failure
			} else {
				f.Index = mark
				if err == errStall {
					f.Verdict = &verdict{Class: "stall", Msg: "a case did not end within 120 s of real time"}
				} else {
					f.Verdict = crashClass(se)
				}
				f.Case, err = r.caseAt(mark)
				if err != nil {
					errs[i] = err
					return
				}
			}
			f.history = nil
			f.Seed = uint64(from[i]) // first index of that process, for the history
			fails[i] = f
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, nil, e
		}
	}
	return results, fails, nil
}

func merge(results []*result) *result {
	total := &result{Fired: map[string]int{}, Probes: map[string]int64{}}
	hs, ss, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	for _, x := range results {
		if x == nil {
			continue
		}
		total.Done += x.Done
		total.Evals += x.Evals
		for k, v := range x.Fired {
			total.Fired[k] += v
		}
		for k, v := range x.Probes {
			total.Probes[k] += v
		}
		for _, h := range x.Hashes {
			hs[h] = true
		}
		for _, h := range x.Scheds {
			ss[h] = true
		}
		for _, h := range x.Sites {
			sites[h] = true
		}
		total.NSites = x.NSites
		total.Steps += x.Steps
		total.Switches += x.Switches
		total.SimNS += x.SimNS
		total.MapIters += x.MapIters
		total.Jumps += x.Jumps
		if len(total.Samples) < 3 && len(x.Samples) > 0 {
			total.Samples = append(total.Samples, x.Samples[0])
		}
		total.Rule, total.Real, total.Stub = x.Rule, x.Real, x.Stub
		total.TimedOut = total.TimedOut || x.TimedOut
	}
	for h := range hs {
		total.Hashes = append(total.Hashes, h)
	}
	for h := range ss {
		total.Scheds = append(total.Scheds, h)
	}
	for h := range sites {
		total.Sites = append(total.Sites, h)
	}
	return total
}

// caseAt regenerates a case.
func (r *runner) caseAt(i int) (json.RawMessage, error) {
	return r.casesAt(i, i+1, 1, nil)
}

func (r *runner) casesAt(from, to, step int, all *[]json.RawMessage) (json.RawMessage, error) {
	j := job{Mode: "run", Prop: r.prop, Tier: r.tier, Seed: r.seed, From: from, To: to, Step: step}
	b, _ := json.Marshal(j)
	f := filepath.Join(r.b.dir, fmt.Sprintf("cases%d.json", from))
	if err := os.WriteFile(f, b, 0644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	cmd := exec.Command(r.bin(), "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Dir = r.b.dir
	cmd.Env = append(workerEnv(f), "SIM_CASES=1")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("regenerating case %d: %v %s", from, err, firstLines(eb.String(), 5))
	}
	var last json.RawMessage
	for _, l := range strings.Split(strings.TrimSpace(eb.String()), "\n") {
		k := strings.IndexByte(l, ' ')
		if k < 0 || !json.Valid([]byte(l[k+1:])) {
			return nil, fmt.Errorf("regenerating case %d: unexpected output", from)
		}
		last = json.RawMessage(l[k+1:])
		if all != nil {
			*all = append(*all, last)
		}
	}
	return last, nil
}

// settle finds the shortest history which reproduces a failure in a fresh
// process: normally the case alone, otherwise with the cases that ran before it
// in the same process.
func (r *runner) settle(f *found, step int) error {
	same := func(v *verdict) bool { return v != nil && v.Class == f.Verdict.Class }
	var lastV *verdict
	if f.Verdict.Class == "race" {
		r.again = raceRepeats
	}
	for try := 0; try < 2; try++ {
		v, _, se, err := r.attempt([]json.RawMessage{f.Case})
		if err != nil {
			return err
		}
		lastV = v
		if v != nil && v.Class != "invalid" {
			f.Verdict = v
			f.stderr = se
			f.history = []json.RawMessage{f.Case}
			return nil
		}
	}
	var all []json.RawMessage
	if _, err := r.casesAt(int(f.Seed), f.Index+1, step, &all); err != nil {
		return err
	}
	for k := 2; ; k *= 4 {
		if k > len(all) {
			k = len(all)
		}
		h := all[len(all)-k:]
		v, res, se, err := r.attempt(h)
		if err != nil {
			return err
		}
		if same(v) {
			if res.At > 0 && res.At < len(h)-1 {
				h = h[:res.At+1]
			}
			f.history = h
			f.stderr = se
			f.Verdict = v
			return nil
		}
		if k == len(all) {
			break
		}
	}
	return fmt.Errorf("case %d failed (%s: %s) but neither it nor its history fails again (%v): the simulation is not deterministic here", f.Index, f.Verdict.Class, f.Verdict.Msg, lastV)
}

type replayFile struct {
	Property string            `json:"property"`
	Seed     uint64            `json:"seed"`
	Index    int               `json:"index"`
	Tier     string            `json:"tier"`
	Race     bool              `json:"race"`
	Verdict  *verdict          `json:"verdict"`
	Detail   string            `json:"detail,omitempty"`
	History  []json.RawMessage `json:"history"`
	Original json.RawMessage   `json:"original,omitempty"`
	Shrinks  int               `json:"shrink_steps"`
}

// report minimises a failure and writes the replay file.
func (r *runner) report(f *found) (string, *verdict, error) {
	sec := 45
	if r.tier == "thorough" {
		sec = 120
	}
	if v, err := strconv.Atoi(os.Getenv("SIM_SHRINK")); err == nil {
		sec = v
	}
	var orig json.RawMessage
	h, v, se, steps := []json.RawMessage{}, f.Verdict, f.stderr, 0
	if len(f.history) > 0 {
		orig = f.history[len(f.history)-1]
		h, v, se, steps = r.shrink(f, time.Now().Add(time.Duration(sec)*time.Second))
	}
	rf := replayFile{Property: r.prop, Seed: r.seed, Index: f.Index, Tier: r.tier, Race: r.cf.race, Verdict: v, History: h, Original: orig, Shrinks: steps}
	if strings.Contains(se, "DATA RACE") {
		rf.Detail = firstLines(se, 60)
	}
	if strings.HasPrefix(v.Class, "crash") {
		rf.Detail = firstLines(se, 60)
	}
	dir := filepath.Join(verifDir(), "replays")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", nil, err
	}
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", nil, err
	}
	name := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", r.prop, r.seed, f.Index))
	if err := os.WriteFile(name, b, 0644); err != nil {
		return "", nil, err
	}
	if v.Trace == "" && rf.Detail != "" {
		v = &verdict{v.Class, v.Msg, firstLines(rf.Detail, 25)}
	}
	return name, v, nil
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r, err := newRunner(rf.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r.tier, r.seed = rf.Tier, rf.Seed
	r.cf.race = rf.Race
	if rf.Verdict.Class == "race" {
		r.again = raceRepeats
	}
	defer func() { r.b.clean() }()
	if err := r.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, "build:", err)
		return 3
	}
	v, _, se, err := r.attempt(rf.History)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if v == nil || v.Class == "invalid" {
		fmt.Printf("no violation on this tree (recorded: %s)\n", rf.Verdict.Class)
		return 0
	}
	fmt.Printf("class=%s\n%s\n%s\n", v.Class, v.Msg, v.Trace)
	if strings.Contains(se, "DATA RACE") {
		fmt.Println(firstLines(se, 60))
	}
	if v.Class == rf.Verdict.Class && v.Msg == rf.Verdict.Msg {
		fmt.Println("reproduced exactly")
	} else {
		fmt.Printf("recorded was class=%s\n%s\n", rf.Verdict.Class, rf.Verdict.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

func (r *runner) evidence(t *result, viol int, buildS, runS, wall float64) error {
	samples := t.Samples
	if samples == nil {
		samples = []json.RawMessage{}
	}
	faults := map[string]int{}
	nf := 0
	for k, v := range t.Fired {
		faults[k] = v
		nf += v
	}
	unreached := r.unreached(t)
	perHour := 0.0
	if runS > 0 {
		perHour = float64(t.Done) / runS * 3600
	}
	cov := map[string]any{
		"evaluations":                  t.Evals,
		"distinct_nontrivial":          len(t.Hashes),
		"rule":                         t.Rule,
		"samples":                      samples,
		"seeds_run":                    t.Done,
		"seeds_planned":                r.n,
		"seeds_per_hour":               int(perHour),
		"stopped_by_time_limit":        t.TimedOut,
		"simulated_time_s":             float64(t.SimNS) / 1e9,
		"simulated_steps":              t.Steps,
		"context_switches":             t.Switches,
		"distinct_interleavings":       len(t.Scheds),
		"interleaving_measure":         "distinct hashes of the sequence (task, yield site) at every scheduling decision, over cases where at least two tasks were runnable",
		"faults_injected":              faults,
		"faults_injected_total":        nf,
		"clock_jumps_injected":         t.Jumps,
		"map_orders_permuted":          t.MapIters,
		"rare_conditions_reached":      t.Probes,
		"yield_sites_reached":          len(t.Sites),
		"yield_sites_total":            t.NSites,
		"files_with_reached_sites":     unreached,
		"components_real":              t.Real,
		"components_simulated":         t.Stub,
		"race_detector":                r.cf.race,
		"build_s":                      buildS,
		"run_s":                        runS,
		"parallel_simulator_processes": workers(),
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": r.cf.level, "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"the instrumented copy (yield points before statements, os/sync/time/rand/map-iteration redirected) behaves as the original under the schedule chosen",
			"statements are the grain of preemption; finer interleavings are covered by the race detector where it is on",
			"the Go toolchain, its standard library and the race detector are trusted",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, r.prop+".json"), b, 0644)
}

// unreached summarises per file how many yield sites this run reached.
func (r *runner) unreached(t *result) map[string]string {
	seen := map[int]bool{}
	for _, s := range t.Sites {
		seen[s] = true
	}
	tot, got := map[string]int{}, map[string]int{}
	for i, s := range r.b.sites {
		f := s
		if k := strings.LastIndexByte(s, ':'); k > 0 {
			f = s[:k]
		}
		tot[f]++
		if seen[i] {
			got[f]++
		}
	}
	out := map[string]string{}
	for f, n := range tot {
		if got[f] > 0 && f != "sync" {
			out[f] = fmt.Sprintf("%d/%d", got[f], n)
		}
	}
	return out
}

// selftest: the same seeds twice, with different numbers of workers, must give
// the same executions.
func selftest(ids []string) int {
	if len(ids) == 0 {
		for k := range confs {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	code := 0
	built := map[bool]*build{}
	defer func() {
		for _, b := range built {
			b.clean()
		}
	}()
	for _, id := range ids {
		r, err := newRunner(id)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r.n = 400
		if v, err := strconv.Atoi(os.Getenv("SIM_N")); err == nil && v > 0 {
			r.n = v
		}
		if built[r.cf.race] == nil {
			if err := r.prepare(); err != nil {
				fmt.Fprintln(os.Stderr, "build:", err)
				return 3
			}
			built[r.cf.race] = r.b
		}
		r.b = built[r.cf.race]
		a, err1 := r.logs(1)
		b, err2 := r.logs(5)
		if err1 != nil || err2 != nil {
			fmt.Fprintln(os.Stderr, id, err1, err2)
			code = 3
			continue
		}
		diff := 0
		for i := range a {
			if a[i] != b[i] {
				if diff == 0 {
					fmt.Printf("%s differs:\n  %s\n  %s\n", id, a[i], b[i])
				}
				diff++
			}
		}
		fmt.Printf("%s: %d seeds, %d differ between runs\n", id, len(a), diff)
		if diff > 0 {
			code = 3
		}
	}
	return code
}

func (r *runner) logs(w int) ([]string, error) {
	out := make([]string, r.n)
	errs := make([]error, w)
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res, _, se, err := r.launch(job{Mode: "run", Seed: r.seed, From: i, To: r.n, Step: w, Log: true}, 120*time.Second)
			if err != nil || res == nil {
				errs[i] = fmt.Errorf("%v %s", err, firstLines(se, 20))
				return
			}
			for k, l := range res.Log {
				if i+k*w < len(out) {
					out[i+k*w] = l
				}
			}
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return out, nil
}
