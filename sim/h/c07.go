//go:build go1.25

package h

import (
	"fmt"
	"time"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// C07: conversion is reproducible.
type c07 struct {
	Convs []*Conv  `json:"convs"`
	Line  *DB      `json:"line,omitempty"`
	Seq   []int    `json:"seq"`   // conversions one after another in one process
	Tasks [][]int  `json:"tasks"` // and at the same time
	Sched rt.Sched `json:"sched"`
	Maps  []uint64 `json:"maps"`
	Clock []int64  `json:"clock"` // seconds since 1970, one per conversion of Seq
	Zone  int      `json:"zone,omitempty"`
	Jumps []int64  `json:"jumps,omitempty"`
}

func clockAt(sec int64, zone int) time.Time {
	loc := time.UTC
	if zone != 0 {
		loc = time.FixedZone("Z", zone)
	}
	return time.Unix(sec, 0).In(loc)
}

func genClock(r *Rand) int64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return 1<<31 - 1 + int64(r.N(3))
	case 2:
		return 1709251199 + int64(r.N(3)) // around the end of 2024-02-29
	case 3:
		return 4102444800 + int64(r.N(1<<20))
	}
	return 1500000000 + int64(r.N(1<<28))
}

func genZone(r *Rand) int {
	return r.I(0, 0, 8*3600, -11*3600, 14*3600, 5*3600+1800, -3600)
}

func init() {
	register(&Prop{
		ID: "C07",
		Rule: "a case is 1-3 conversions (source of any format, rule, field operations, a shared line database, outputs), each done in a fresh process as reference, then a seeded sequence of them in one process under changed map orders, clocks and zones, then several at the same time under a seeded schedule; datasets and output bytes must be the reference's, but for the recorded build time; " +
			"non-trivial if a conversion was repeated or overlapped another",
		Real: []string{"db/convert", "db/field/*", "db/format/*", "db/query", "ipnet"},
		Stub: []string{"file system (in memory)", "goroutine scheduler", "package sync", "clock", "map iteration order"},
		New:  func() any { return &c07{} },
		Gen: func(r *Rand, tier string) any {
			c := &c07{Sched: genSched(r)}
			if r.One(2) {
				c.Line = genLineDB(r)
			}
			n := r.I(1, 1, 2, 2, 3)
			for i := 0; i < n; i++ {
				v := &Conv{Rule: rules[r.N(len(rules))], Ops: genOpList(r, c.Line != nil)}
				if r.One(3) {
					v.Rule = genRule(r, "")
				}
				if i > 0 && r.One(2) { // the same source under another rule
					v.Src = c.Convs[0].Src
					if r.N(3) > 0 {
						v.Rule = genRule(r, c.Convs[0].Rule)
					}
				} else {
					v.Src = genConvSrc(r, r.S(".ipdb", ".ipdb", ".awdb", ".scan", ".memip"), r.In(1, 2))
				}
				for k := r.In(0, 3); k > 0; k-- {
					v.Outs = append(v.Outs, r.S(".ipdb", ".scan", ".memip"))
				}
				c.Convs = append(c.Convs, v)
			}
			k := r.In(1, 4)
			for i := 0; i < k; i++ {
				c.Seq = append(c.Seq, r.N(n))
				c.Clock = append(c.Clock, genClock(r))
				c.Maps = append(c.Maps, r.U64()*uint64(r.N(4)))
			}
			if r.One(2) {
				for i := r.In(2, 4); i > 0; i-- {
					t := []int{r.N(n)}
					if r.One(3) {
						t = append(t, r.N(n))
					}
					c.Tasks = append(c.Tasks, t)
				}
			}
			c.Zone = genZone(r)
			if r.One(3) {
				for i := r.In(1, 5); i > 0; i-- {
					c.Jumps = append(c.Jumps, []int64{-3600e9, 3600e9, -86400e9 * 400, 86400e9 * 400, 1, -1, 999999999}[r.N(7)])
				}
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c07)
			if len(c.Convs) == 0 || len(c.Clock) != len(c.Seq) || len(c.Maps) != len(c.Seq) || (c.Line != nil && !c.Line.valid()) {
				return invalid("case")
			}
			fsys := simos.New()
			name := func(i int) string { return fmt.Sprintf("/w/src%d%s", i, c.Convs[i].Src.Kind) }
			for i, v := range c.Convs {
				if v.Src == nil || !v.Src.valid() {
					return invalid("src")
				}
				fsys.Put(name(i), v.Src.bytes())
			}
			simos.Mount(fsys)
			for _, i := range append(append([]int{}, c.Seq...), flat(c.Tasks)...) {
				if i < 0 || i >= len(c.Convs) {
					return invalid("index")
				}
			}
			one := func(i int, line inf.Query) string {
				s, outs, err := c.Convs[i].convert(name(i), line)
				if err != nil {
					return "error: " + err.Error()
				}
				for _, o := range outs {
					s += "\n== " + o
				}
				return s
			}
			var line inf.Query
			openL := func() *Verdict {
				if c.Line == nil {
					return nil
				}
				var err error
				o := rt.Do(openBudget, func() { line, err = openLine(c.Line) })
				if v := outVerdict(o, "opening the line database"); v != nil {
					return v
				}
				if err != nil {
					line = nil
				}
				return nil
			}
			want := make([]string, len(c.Convs))
			for i, cv := range c.Convs {
				resetAll()
				rt.SetMapSeed(0)
				rt.SetClock(clockAt(1700000000, 0), nil)
				if v := openL(); v != nil {
					return v
				}
				if _, ok := opList(cv.Ops, line); !ok {
					return nil // the line database is not one
				}
				o := rt.Do(dumpBudget, func() { want[i] = one(i, line) })
				if v := outVerdict(o, fmt.Sprintf("conversion %d", i)); v != nil {
					return v
				}
			}
			resetAll()
			if v := openL(); v != nil {
				return v
			}
			for k, i := range c.Seq {
				rt.SetMapSeed(c.Maps[k])
				rt.SetClock(clockAt(c.Clock[k], c.Zone), c.Jumps)
				var s string
				o := rt.Do(dumpBudget, func() { s = one(i, line) })
				if v := outVerdict(o, fmt.Sprintf("conversion %d, step %d", i, k)); v != nil {
					return v
				}
				if s != want[i] {
					return bad("differs", "step %d, conversion %d after %v, gave %s (in a fresh process)", k, i, c.Seq[:k], diffAt(s, want[i]))
				}
				x.Nontrivial = x.Nontrivial || k > 0 || c.Maps[k] != 0
			}
			if len(c.Tasks) == 0 {
				return nil
			}
			x.Nontrivial = true
			resetAll()
			rt.SetMapSeed(c.Maps0())
			rt.SetClock(clockAt(1600000000, c.Zone), c.Jumps)
			if v := openL(); v != nil {
				return v
			}
			var tasks []rt.Task
			wrong := make([]string, len(c.Tasks))
			for t := range c.Tasks {
				ids := c.Tasks[t]
				tasks = append(tasks, rt.Task{F: func() {
					for _, i := range ids {
						if s := one(i, line); s != want[i] && wrong[t] == "" {
							wrong[t] = fmt.Sprintf("conversion %d gave %s (in a fresh process)", i, diffAt(s, want[i]))
						}
					}
				}})
			}
			res := rt.Run(c.Sched, dumpBudget*len(tasks), nil, tasks...)
			x.Segs = res.Segs
			x.Extra = rt.SchedHash
			if v := verdictOf(res, "concurrent conversions"); v != nil {
				return v
			}
			for t, w := range wrong {
				if w != "" {
					return bad("concurrent", "task %d: %s", t, w)
				}
			}
			return nil
		},
	})
}

func (c *c07) Maps0() uint64 {
	if len(c.Maps) > 0 {
		return c.Maps[0]
	}
	return 0
}

func flat(x [][]int) []int {
	var r []int
	for _, t := range x {
		r = append(r, t...)
	}
	return r
}
