//go:build go1.25

package h

import (
	"fmt"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// C12: version information tells the truth whatever the clock does.
type c12 struct {
	Src   *DB     `json:"src,omitempty"` // a database that already exists
	Packs []*pk12 `json:"packs,omitempty"`
	Opens []*tm12 `json:"opens"` // when everything is opened again
}

type tm12 struct {
	At    int64   `json:"at"` // seconds since 1970
	NS    int64   `json:"ns,omitempty"`
	Zone  int     `json:"zone,omitempty"` // of the machine
	Jumps []int64 `json:"jumps,omitempty"`
	Fresh bool    `json:"fresh,omitempty"` // in a new process
}

type pk12 struct {
	T    *tm12  `json:"t"`
	DS   *DS    `json:"ds"`
	From int    `json:"from,omitempty"` // packs what an earlier pack gives when dumped (1-based), instead
	Same int    `json:"same,omitempty"` // packs the very dataset an earlier pack packed (1-based)
	Kind string `json:"kind"`           // .ipdb or .scan
	File bool   `json:"file,omitempty"`
}

func (t *tm12) set() {
	if t.Fresh {
		resetAll()
	}
	c := clockAt(t.At, t.Zone).Add(time.Duration(t.NS))
	time.Local = c.Location()
	rt.SetClock(c, t.Jumps)
}

func genTm(r *Rand) *tm12 {
	t := &tm12{At: genClock(r), Zone: genZone(r), Fresh: r.One(3)}
	if r.One(12) {
		t.At = -int64(r.N(1 << 30))
	}
	if r.One(2) {
		t.NS = int64(r.I(1, 499999999, 500000000, 999999999))
	}
	if r.One(4) {
		for i := r.In(1, 4); i > 0; i-- {
			t.Jumps = append(t.Jumps, []int64{0, -3600e9, 3600e9, -86400e9 * 400, 86400e9 * 400, 1, -1, 999999999}[r.N(8)])
		}
	}
	return t
}

// versionWant is what a database says of itself.
func versionWant(kind string, d *DS, build int64, lang []string) *inf.VersionInfo {
	v := &inf.VersionInfo{IpType: inf.IpType(d.V), Build: build, Version: d.Label, Languages: lang, ExtraInfo: d.Extra}
	if kind == ".awdb" {
		v.Version = "ipplus360" + d.Label
		v.ExtraInfo = nil
	} else if kind == ".ipdb" && d.Label == "" {
		v.Version = "ipip.net-" + time.Unix(build, 0).UTC().Format("2006-01-02")
	}
	return v
}

func diffVersion(got, want *inf.VersionInfo) string {
	if got == nil {
		return "no version information"
	}
	g, w := *got, *want
	g.Count, w.Count = 0, 0
	if showVersion(&g) != showVersion(&w) {
		return fmt.Sprintf("%s instead of %s", showVersion(&g), showVersion(&w))
	}
	return ""
}

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "a case is a history of packs (of datasets, or of what earlier packs give when dumped) at simulated clock readings with jumps and in any zone, an existing database, and later openings at other clock readings and zones; version information must be the model's and answers and dumps the same at all times; " +
			"non-trivial if something was packed or a clock jump fired",
		Real: []string{"db/convert", "db/query", "db/format/*", "db/field/export"},
		Stub: []string{"clock and local zone", "file system (in memory)", "map iteration order"},
		New:  func() any { return &c12{} },
		Gen: func(r *Rand, tier string) any {
			c := &c12{}
			if r.One(2) {
				c.Src = genConvSrc(r, r.S(".ipdb", ".awdb"), r.In(1, 2))
			}
			n := r.In(0, 4)
			if c.Src == nil && n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				p := &pk12{T: genTm(r), Kind: r.S(".ipdb", ".ipdb", ".scan"), File: r.One(2)}
				o := dsOpt{full: true, splits: r.In(1, 2), v: r.I(1, 1, 2)}
				if r.One(5) {
					o.v, o.full, o.splits = 3, false, 2
				}
				p.DS = genDS(r, o)
				if i > 0 && r.One(2) {
					k := r.N(i)
					if c.Packs[k].DS.V != 3 {
						p.From, p.DS = k+1, nil
						d := *c.Packs[k].DS
						p.DS = &d
					}
				}
				if r.One(2) {
					p.DS.Label = ""
				}
				if p.From > 0 {
					p.DS = c.Packs[p.From-1].DS
				} else if i > 0 && r.One(3) {
					p.Same = r.In(1, i)
					p.DS = c.Packs[p.Same-1].DS
				}
				c.Packs = append(c.Packs, p)
			}
			for k := r.In(1, 3); k > 0; k-- {
				c.Opens = append(c.Opens, genTm(r))
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c12)
			if c.Src != nil && (!c.Src.valid() || (c.Src.Kind != ".ipdb" && c.Src.Kind != ".awdb") || len(c.Src.Dmg) > 0) || len(c.Opens) == 0 {
				return invalid("case")
			}
			local := time.Local
			defer func() { time.Local = local }()
			fsys := simos.New()
			simos.Mount(fsys)
			type obj struct {
				name string
				kind string
				want *inf.VersionInfo
				ips  []Op
				dump bool
				seen string
				what string
			}
			var objs []*obj
			langs := func(d *DB) []string {
				if d.Kind == ".awdb" {
					return []string{"CN", "EN"}
				}
				if d.Ip.Lang > 0 {
					return []string{"CN", "EN"}
				}
				return []string{"CN"}
			}
			probe := func(d *DS) []Op {
				var ops []Op
				for _, ip := range newModel(d).probes(NewRand(7), 8) {
					ops = append(ops, Op{"q", ip.String()})
				}
				return ops
			}
			if c.Src != nil {
				name := "/w/src" + c.Src.Kind
				fsys.Put(name, c.Src.bytes())
				objs = append(objs, &obj{name: name, kind: c.Src.Kind, want: versionWant(c.Src.Kind, c.Src.DS, c.Src.DS.Build, langs(c.Src)), ips: probe(c.Src.DS), dump: c.Src.full(), what: "the existing database"})
			}
			packed := map[int]*obj{}
			var datas []*inf.IpData
			var refs []*DS
			for i, p := range c.Packs {
				if p == nil || p.T == nil || !packable(p.DS) || p.From < 0 || p.From > i || p.Same < 0 || p.Same > i || (p.Same > 0 && p.From > 0) || (p.Kind != ".ipdb" && p.Kind != ".scan") {
					return invalid("pack")
				}
				d := p.DS.data()
				ref := &DS{}
				*ref = *p.DS
				what := fmt.Sprintf("the %s database of pack %d", p.Kind, i)
				p.T.set()
				if p.From > 0 {
					f := packed[p.From-1]
					if f == nil || p.DS.V == 3 || !(&DB{DS: p.DS}).full() {
						return invalid("from")
					}
					var err error
					o := rt.Do(dumpBudget, func() { d, err = convert.DumpFile(f.name, "", nil) })
					if v := outVerdict(o, "dumping"); v != nil {
						return v
					}
					if err != nil {
						return bad("dump", "dumping %s failed: %v", f.what, err)
					}
					if m := diffVersion(d.Version, f.want); m != "" {
						return bad("version", "%s, when dumped, tells %s", f.what, m)
					}
					if len(d.Fields) == 0 { // none of its fields is a common one
						return nil
					}
					ref.Label, ref.Extra, ref.Build = f.want.Version, f.want.ExtraInfo, f.want.Build
				}
				if p.Same > 0 {
					d, ref = datas[p.Same-1], refs[p.Same-1]
				}
				datas, refs = append(datas, d), append(refs, ref)
				name := fmt.Sprintf("/w/p%d%s", i, p.Kind)
				p.T.set()
				var err error
				o := rt.Do(dumpBudget, func() {
					if p.File {
						err = convert.PackFile(name, d)
						return
					}
					var b []byte
					if b, err = convert.PackBytes(p.Kind, d); err == nil {
						fsys.Put(name, b)
					}
				})
				if v := outVerdict(o, "packing"); v != nil {
					return v
				}
				if err != nil {
					return bad("refused", "packing a valid dataset failed: %v", err)
				}
				x.Nontrivial = true
				ob := &obj{name: name, kind: p.Kind, ips: probe(p.DS), dump: p.DS.V != 3 && (&DB{DS: p.DS}).full(), what: what}
				if p.Kind == ".ipdb" {
					// the moment: any reading of the clock during the pack
					times := append([]time.Time{clockAt(p.T.At, p.T.Zone).Add(time.Duration(p.T.NS))}, rt.Readings()...)
					var q *query.Db
					o := rt.Do(dumpBudget, func() { q, err = query.NewDb(name) })
					if v := outVerdict(o, "opening"); v != nil {
						return v
					}
					if err != nil {
						return bad("open", "%s does not open: %v", what, err)
					}
					build := q.VersionInfo().Build
					ok := false
					for _, t := range times {
						ok = ok || t.Unix() == build
					}
					if !ok {
						return bad("build", "%s reports the build time %d; when it was packed the clock read %d (and during the pack %v)", what, build, p.T.At, rt.Readings())
					}
					ob.want = versionWant(".ipdb", ref, build, []string{"CN"})
				} else {
					// a scan file tells what the dataset told
					ob.want = versionWant(".scan", ref, ref.Build, nil)
					k := i
					for c.Packs[k].Same > 0 {
						k = c.Packs[k].Same - 1
					}
					if from := c.Packs[k].From; from > 0 {
						ob.want.Languages = packed[from-1].want.Languages
					}
				}
				packed[i] = ob
				objs = append(objs, ob)
			}
			for k, t := range c.Opens {
				if t == nil {
					return invalid("opens")
				}
				for _, ob := range objs {
					t.set()
					var s string
					var ver *inf.VersionInfo
					var err error
					o := rt.Do(dumpBudget, func() {
						if ob.kind != ".scan" {
							var q *query.Db
							if q, err = query.NewDb(ob.name); err != nil {
								return
							}
							ver = q.VersionInfo()
							s = answers(&opened{db: q}, ob.ips)
						}
						if ob.dump || ob.kind == ".scan" {
							var d *inf.IpData
							if d, err = convert.DumpFile(ob.name, "", nil); err != nil {
								return
							}
							if ver == nil {
								ver = d.Version
							}
							s += canonData(d, nil)
						}
					})
					if v := outVerdict(o, "opening"); v != nil {
						return v
					}
					if err != nil {
						return bad("open", "%s cannot be opened and dumped when the clock reads %d: %v", ob.what, t.At, err)
					}
					if m := diffVersion(ver, ob.want); m != "" {
						return bad("version", "%s, opened when the clock reads %d (zone %d), tells %s", ob.what, t.At, t.Zone, m)
					}
					if k == 0 {
						ob.seen = s
					} else if s != ob.seen {
						return bad("clock", "%s, when the clock reads %d (zone %d) rather than %d, gives %s", ob.what, t.At, t.Zone, c.Opens[0].At, diffAt(s, ob.seen))
					}
				}
				if len(t.Jumps) > 0 {
					x.Nontrivial = true
				}
			}
			return nil
		},
	})
}
