//go:build go1.25

package h

import (
	"fmt"
	"net"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
)

// Op2 is one step of a caller: a lookup, and what becomes of its answer.
type Op2 struct {
	K   string `json:"k"` // q s u i: lookups; v: version; n d m: awdb records; x: scribble over an earlier answer
	A   string `json:"a,omitempty"`
	N   int    `json:"n,omitempty"`   // x: which of the caller's earlier answers
	Mut bool   `json:"mut,omitempty"` // the answer is modified at once
}

type ans2 struct {
	op   Op2
	info *inf.IpInfo
	ver  *inf.VersionInfo
	any  interface{}
	net  *net.IPNet
	mask int
	err  error
	seen string // as it was received
	used bool   // modified by the caller
}

func (a *ans2) String() string {
	switch {
	case a.err != nil:
		return "error: " + a.err.Error()
	case a.ver != nil:
		return fmt.Sprintf("type=%d count=%d build=%d version=%q lang=%q extra=%q", a.ver.IpType, a.ver.Count, a.ver.Build, a.ver.Version, a.ver.Languages, a.ver.ExtraInfo)
	case a.any != nil:
		return fmt.Sprintf("%v %s", a.net, showAny(a.any))
	}
	return fmt.Sprintf("%s /%d", showInfo(a.info), a.mask)
}

func showAny(x interface{}) string {
	switch x := x.(type) {
	case map[string]interface{}:
		return showMap(x)
	case *map[string][]byte:
		m := map[string]interface{}{}
		for k, v := range *x {
			m[k] = append([]byte(nil), v...)
		}
		return showMap(m)
	case *map[string]string:
		m := map[string]interface{}{}
		for k, v := range *x {
			m[k] = v
		}
		return showMap(m)
	}
	return fmt.Sprint(x)
}

// scribble writes to everything the answer gives access to.
func (a *ans2) scribble(tag int) {
	a.used = true
	s := fmt.Sprint("scribbled ", tag)
	if i := a.info; i != nil {
		i.Country, i.District, i.Province, i.City, i.Asn, i.Isp, i.Continent, i.Line = s, s, s, s, s, s, s, s
	}
	strs := func(l *[]string) {
		for k := range *l {
			(*l)[k] = s
		}
		*l = append((*l)[:len(*l):cap(*l)], s)
		*l = append((*l)[:0], s, s, s)
	}
	if v := a.ver; v != nil {
		v.IpType, v.Count, v.Build, v.Version = 0, 0, -1, s
		strs(&v.Languages)
		strs(&v.ExtraInfo)
	}
	if a.net != nil {
		for k := range a.net.IP {
			a.net.IP[k] ^= 0xff
		}
		for k := range a.net.Mask {
			a.net.Mask[k] ^= 0xff
		}
	}
	bytes := func(b []byte) {
		b = b[:cap(b)]
		for k := range b {
			b[k] ^= 0x5a
		}
	}
	switch x := a.any.(type) {
	case map[string]interface{}:
		for _, v := range x {
			if b, ok := v.([]byte); ok {
				bytes(b)
			}
		}
		for k := range x {
			x[k] = s
		}
		x[s] = s
	case *map[string][]byte:
		for _, v := range *x {
			bytes(v)
		}
		clear(*x)
	case *map[string]string:
		for k := range *x {
			(*x)[k] = s
		}
	}
}

func (o *opened) ask(op Op2) *ans2 {
	a := &ans2{op: op}
	ip := net.ParseIP(op.A)
	switch op.K {
	case "q":
		a.info, a.mask, a.err = o.db.Query(ip)
	case "s":
		a.info, a.mask, a.err = o.db.QueryStr(op.A)
	case "u":
		x, _ := addrOf(ip)
		a.info, a.mask, a.err = o.db.QueryU32(uint32(x.lo))
	case "i":
		a.info, a.mask, a.err = query.GetIntern(o.db).Query(ip)
	case "v":
		a.ver = o.db.VersionInfo()
	case "iv":
		a.ver = query.GetIntern(o.db).VersionInfo()
	case "c4":
		a.err = o.db.CheckV4()
	case "n":
		if o.aw != nil {
			var x interface{}
			var ok bool
			a.net, ok, a.err = o.aw.LookupNetwork(ip, &x)
			if m, is := x.(map[string]interface{}); is && ok {
				a.any = m
			}
		}
	case "m":
		if o.aw != nil {
			x := map[string]string{}
			a.err = o.aw.Lookup(ip, &x)
			a.any = &x
		}
	case "d":
		if o.aw != nil {
			x := map[string][]byte{}
			a.err = o.aw.Lookup(ip, &x)
			a.any = &x
		}
	}
	a.seen = a.String()
	return a
}

// C02: an answer belongs to its caller.
type c02 struct {
	DB    *DB      `json:"db"`
	Tasks [][]Op2  `json:"tasks"`
	Sched rt.Sched `json:"sched"`
	Map   uint64   `json:"map,omitempty"`
}

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "a case is a database (ipdb or awdb), 1-4 callers whose programs mix lookups in all forms, failing lookups, version requests and modifications of everything earlier answers give access to, and a schedule; every answer is compared with the same lookup made alone, and every kept answer with what it was when received; " +
			"non-trivial if an answer was modified and later ones were asked for",
		Real: []string{"db/query", "db/format/ipdb (reader, querier)", "db/format/awdb (reader, decoder, querier)"},
		Stub: []string{"goroutine scheduler", "package sync", "clock", "map iteration order"},
		New:  func() any { return &c02{} },
		Gen: func(r *Rand, tier string) any {
			c := &c02{DB: genDB(r, dsOpt{special: r.One(3), full: r.One(3), splits: r.I(0, 2, 3), bulk: r.One(60), big: r.One(400)}), Sched: genSched(r)}
			if len(c.DB.DS.Extra) == 0 && r.One(2) {
				c.DB.DS.Extra = []string{"line-1", "x 2"}
			}
			ips := newModel(c.DB.DS).probes(r, r.I(1, 2, 3, 8))
			kinds := []string{"q", "q", "q", "s", "u", "i", "v", "iv"}
			if c.DB.Kind == ".awdb" {
				kinds = append(kinds, "n", "m", "d")
			}
			n := r.I(1, 1, 2, 3, 4)
			for i := 0; i < n; i++ {
				var ops []Op2
				for k := r.In(2, 10); k > 0; k-- {
					if len(ops) > 0 && r.One(4) {
						ops = append(ops, Op2{K: "x", N: r.N(len(ops))})
						continue
					}
					if r.One(12) { // many lookups while answers are kept
						ops = append(ops, Op2{K: "b", A: ips[r.N(len(ips))].String(), N: r.I(20, 70, 140, 300)})
						continue
					}
					op := Op2{K: kinds[r.N(len(kinds))], Mut: r.One(2)}
					if op.K != "v" && op.K != "iv" {
						op.A = ips[r.N(len(ips))].String()
					}
					if op.K == "s" && r.One(6) {
						op.A = r.S("", "x", "1.2.3")
					}
					ops = append(ops, op)
				}
				c.Tasks = append(c.Tasks, ops)
			}
			if r.One(2) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c02)
			if c.DB == nil || !c.DB.valid() || len(c.Tasks) == 0 || (c.DB.Kind != ".ipdb" && c.DB.Kind != ".awdb") {
				return invalid("db")
			}
			rt.SetMapSeed(c.Map)
			b := c.DB.bytes()
			open := func() (*opened, *Verdict) {
				var db *opened
				var err error
				o := rt.Do(openBudget, func() { db, err = c.DB.open(append([]byte(nil), b...)) })
				if v := outVerdict(o, "opening a valid database"); v != nil {
					return nil, v
				}
				if err != nil {
					return nil, bad("open", "opening a valid database failed: %v", err)
				}
				return db, nil
			}
			// alone, each on its own copy
			want := map[Op2]string{}
			for _, t := range c.Tasks {
				for _, op := range t {
					op.Mut = false
					if op.K == "b" {
						op = Op2{K: "q", A: op.A}
					}
					if op.K == "x" || want[op] != "" {
						continue
					}
					db, v := open()
					if v != nil {
						return v
					}
					o := rt.Do(openBudget, func() { want[op] = db.ask(op).seen })
					if v := outVerdict(o, fmt.Sprintf("lookup %v", op)); v != nil {
						return v
					}
				}
			}
			db, v := open()
			if v != nil {
				return v
			}
			got := make([][]*ans2, len(c.Tasks))
			wrong := make([]string, len(c.Tasks))
			note := func(i int, f string, a ...any) {
				if wrong[i] == "" {
					wrong[i] = fmt.Sprintf(f, a...)
				}
			}
			keep := func(i int, when string) {
				for _, a := range got[i] {
					if s := a.String(); !a.used && s != a.seen {
						note(i, "the answer kept for %v changed %s: it was %s, now it is %s", a.op, when, clip(a.seen, 500), clip(s, 500))
					}
				}
			}
			var tasks []rt.Task
			muts, after := 0, false
			for i := range c.Tasks {
				ops := c.Tasks[i]
				mut := false
				for _, op := range ops {
					if mut && op.K != "x" {
						after = true
					}
					if op.Mut || op.K == "x" {
						mut = true
						muts++
					}
				}
				tasks = append(tasks, rt.Task{F: func() {
					for k, op := range ops {
						if op.K == "x" {
							if op.N >= 0 && op.N < len(got[i]) {
								got[i][op.N].scribble(k)
							}
							continue
						}
						if op.K == "b" {
							q := Op2{K: "q", A: op.A}
							for n := 0; n < op.N && n < 2000 && wrong[i] == ""; n++ {
								if a := db.ask(q); a.seen != want[q] {
									note(i, "%v answered %s the %dth time; alone on a fresh copy: %s", q, clip(a.seen, 500), n+1, clip(want[q], 500))
								}
							}
							keep(i, "while the caller went on")
							continue
						}
						a := db.ask(op)
						op.Mut = false
						got[i] = append(got[i], a)
						if a.seen != want[op] {
							note(i, "%v answered %s; alone on a fresh copy: %s", op, clip(a.seen, 500), clip(want[op], 500))
						}
						if ops[k].Mut {
							a.scribble(k)
						}
						keep(i, "while the caller went on")
					}
				}})
			}
			res := rt.Run(c.Sched, openBudget*(len(tasks)+1), nil, tasks...)
			x.Segs = res.Segs
			x.Extra = rt.SchedHash
			x.Nontrivial = muts > 0 && (after || len(tasks) > 1)
			if v := verdictOf(res, "lookups"); v != nil {
				return v
			}
			for i := range c.Tasks {
				keep(i, "after all callers were done")
				if wrong[i] != "" {
					return bad("leak", "caller %d: %s", i, wrong[i])
				}
			}
			// once more
			for op, w := range want {
				var s string
				o := rt.Do(openBudget, func() { s = db.ask(op).seen })
				if v := outVerdict(o, fmt.Sprintf("lookup %v", op)); v != nil {
					return v
				}
				if s != w {
					return bad("leak", "after all callers were done %v answers %s; alone on a fresh copy: %s", op, clip(s, 500), clip(w, 500))
				}
			}
			return nil
		},
	})
}
