//go:build go1.25

package h

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/field/data"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// C08: field operations act per network and never lose an address.
type c08 struct {
	DS     *DS      `json:"ds"`
	Layout int      `json:"layout,omitempty"` // how rows share storage
	Ops    []string `json:"ops"`
	Line   *DB      `json:"line,omitempty"`
	Fail   []int    `json:"fail,omitempty"`  // lookups (counted over all operations) that fail
	FailA  []int    `json:"faila,omitempty"` // rows whose network's lookups always fail
	All    bool     `json:"all,omitempty"`   // the line database is down
	Map    uint64   `json:"map,omitempty"`
	Load   []string `json:"load,omitempty"` // field, table: loaded instead of the shipped one
}

// tables parses the tables of normalised names by itself.
func (c *c08) tables() map[string]map[string]string {
	out := map[string]map[string]string{}
	parse := func(f, s string) {
		m := map[string]string{}
		for _, l := range strings.Split(s, "\n") {
			if i := strings.IndexByte(l, '\t'); i >= 0 {
				m[l[:i]] = l[i+1:]
			}
		}
		out[f] = m
	}
	parse("city", data.CityList)
	parse("province", data.ProvinceList)
	parse("isp", data.ISPList)
	for i := 0; i+1 < len(c.Load); i += 2 {
		parse(c.Load[i], c.Load[i+1])
	}
	return out
}

// the documented regions of provinces
var regions = map[string]string{}

func init() {
	for d, ps := range map[string]string{"东北": "黑龙江 辽宁 吉林", "西北": "新疆 青海 宁夏 甘肃 陕西", "华北": "内蒙古 河北 山西 天津 北京",
		"西南": "西藏 四川 重庆 贵州 云南", "华中": "湖南 湖北 河南", "华东": "山东 江苏 安徽 浙江 江西 福建 上海 台湾", "华南": "广东 广西 海南 香港 澳门"} {
		for _, p := range strings.Fields(ps) {
			regions[p] = d
		}
	}
}

// mr is a row of the model: it shares nothing.
type mr struct {
	p Pfx
	v []string
}

func colOf(fs []string, f string) int {
	for i, x := range fs {
		if x == f {
			return i
		}
	}
	return -1
}

// laidOut builds the dataset with the rows' storage arranged as layout says.
func (d *DS) laidOut(layout int) *inf.IpData {
	x := d.data()
	switch layout {
	case 1: // all equal rows share one slice
		m := map[string][]string{}
		for i, r := range x.Ips {
			k := strings.Join(r.FieldValues, "\x00")
			if m[k] == nil {
				m[k] = r.FieldValues
			}
			x.Ips[i].FieldValues = m[k]
		}
	case 2: // spare capacity
		for i, r := range x.Ips {
			v := make([]string, len(r.FieldValues), len(r.FieldValues)+3)
			copy(v, r.FieldValues)
			x.Ips[i].FieldValues = v
		}
		f := make([]string, len(x.Fields), len(x.Fields)+3)
		copy(f, x.Fields)
		x.Fields = f
	case 3: // rows are parts of one array
		n := len(x.Fields)
		all := make([]string, 0, n*len(x.Ips)+8)
		for i, r := range x.Ips {
			all = append(all, r.FieldValues...)
			x.Ips[i].FieldValues = all[i*n : i*n+n]
		}
	case 4: // equal neighbours share a slice with spare capacity
		var prev []string
		for i, r := range x.Ips {
			if prev == nil || !eqStrs(prev, r.FieldValues) {
				prev = make([]string, len(r.FieldValues), len(r.FieldValues)+2)
				copy(prev, r.FieldValues)
			}
			x.Ips[i].FieldValues = prev
		}
	}
	return x
}

// lineDB records the lookups made during an operation.
type lineDB struct {
	q     inf.Query
	c     *c08
	down  []Pfx
	n     int
	asked []lineAsk
}

type lineAsk struct {
	a   A
	v6  bool
	ok  bool
	got string
}

func (l *lineDB) Query(ip net.IP) (*inf.IpInfo, int, error) {
	rt.Y(0)
	l.n++
	k := lineAsk{}
	k.a, k.v6 = addrOf(ip)
	fail := l.c.All
	for _, f := range l.c.Fail {
		fail = fail || f == l.n
	}
	for _, p := range l.down {
		fail = fail || p.v6 == k.v6 && p.has(k.a)
	}
	if fail {
		simos.Note("line-lookup")
		l.asked = append(l.asked, k)
		return nil, 0, errors.New("simulated failure of the line database")
	}
	i, m, err := l.q.Query(ip)
	if err == nil {
		k.ok, k.got = true, i.Line
	}
	l.asked = append(l.asked, k)
	return i, m, err
}
func (l *lineDB) BuildCache([]string)           {}
func (l *lineDB) VersionInfo() *inf.VersionInfo { return l.q.VersionInfo() }

func mainLine(s string) string {
	s = strings.SplitN(s, "/", 2)[0]
	switch s {
	case "", "电信", "联通", "移动":
		return s
	case "铁通":
		return "移动"
	}
	return "电信"
}

// lines lists the lines a row of the network may be given.
func (l *lineDB) lines(p Pfx) map[string]bool {
	out := map[string]bool{}
	for _, k := range l.asked {
		if k.v6 == p.v6 && p.has(k.a) {
			if k.ok {
				out[mainLine(k.got)] = true
			} else {
				out[""] = true
			}
		}
	}
	return out
}

var mainIsps = []string{"电信", "联通", "移动", "铁通"}

func isMain(s string) bool { return colOf(mainIsps, s) >= 0 }

// applyModel applies an operation to the model; may lists for each row the
// values the operation may give it, when there is a choice.
func applyModel(op string, fs []string, rows []mr, l *lineDB, tables map[string]map[string]string) ([]string, []mr, []map[string]bool, int) {
	out := make([]mr, len(rows))
	for i, r := range rows {
		out[i] = mr{r.p, cloneStrs(r.v)}
	}
	fs = cloneStrs(fs)
	add := func(f string) int {
		if k := colOf(fs, f); k >= 0 {
			return k
		}
		fs = append(fs, f)
		for i := range out {
			out[i].v = append(out[i].v, "")
		}
		return len(fs) - 1
	}
	switch op {
	case "shortage":
		for i, f := range fs {
			if m, ok := tables[f]; ok {
				for _, r := range out {
					if n, ok := m[r.v[i]]; ok {
						r.v[i] = n
					}
				}
			}
		}
	case "trim":
		isp, asn := colOf(fs, "isp"), colOf(fs, "asn")
		if isp < 0 || asn < 0 {
			break
		}
		for _, r := range out {
			if isMain(r.v[isp]) || r.v[asn] == "" {
				continue
			}
		next:
			for _, m := range mainIsps {
				for _, o := range rows {
					if o.v[isp] == m && o.v[asn] == r.v[asn] {
						r.v[isp] = m
						break next
					}
				}
			}
		}
	case "district":
		p := colOf(fs, "province")
		if p < 0 {
			break
		}
		d := add("district")
		for _, r := range out {
			r.v[d] = regions[r.v[p]]
		}
	case "asnline":
		a := colOf(fs, "asn")
		if a < 0 {
			break
		}
		k := add("line")
		for _, r := range out {
			if s := map[string]string{"4134": "电信", "4837": "联通", "9394": "移动"}[r.v[a]]; s != "" {
				r.v[k] = s
			}
		}
	case "line", "linerep":
		c := colOf(fs, "country")
		if c < 0 {
			break
		}
		k := -1
		if op == "line" {
			k = add("line")
		} else if k = colOf(fs, "isp"); k < 0 {
			break
		}
		may := make([]map[string]bool, len(out))
		for i, r := range out {
			old := rows[i].v
			may[i] = map[string]bool{}
			if r.v[c] == "中国" {
				for s := range l.lines(r.p) {
					if s == "" && op == "linerep" {
						s = old[k]
					}
					may[i][s] = true
				}
			} else if op == "line" {
				may[i][""] = true
			} else {
				may[i][old[k]] = true
			}
		}
		return fs, out, may, k
	}
	return fs, out, nil, -1
}

func rowsOf(d *inf.IpData) ([]mr, error) {
	var out []mr
	for i, r := range d.Ips {
		p, ok := pfxOf(r.Cidr)
		if !ok {
			return nil, fmt.Errorf("row %d has the malformed network %s", i, showNet(r.Cidr))
		}
		if p.a != p.lo() {
			return nil, fmt.Errorf("row %d has the network %s with bits beyond its mask", i, showNet(r.Cidr))
		}
		if len(r.FieldValues) != len(d.Fields) {
			return nil, fmt.Errorf("row %d (%v) has %d values for the %d fields %q", i, r.Cidr, len(r.FieldValues), len(d.Fields), d.Fields)
		}
		out = append(out, mr{p, cloneStrs(r.FieldValues)})
	}
	return out, nil
}

// mapping renders which addresses carry which values.
func mapping(rows []mr) (string, error) {
	rs := append([]mr(nil), rows...)
	sort.SliceStable(rs, func(i, j int) bool {
		if rs[i].p.v6 != rs[j].p.v6 {
			return !rs[i].p.v6
		}
		return rs[i].p.lo().less(rs[j].p.lo())
	})
	var sb strings.Builder
	type seg struct {
		lo, hi A
		v6     bool
		s      string
	}
	var segs []seg
	for _, r := range rs {
		s := seg{r.p.lo(), r.p.hi(), r.p.v6, fmt.Sprintf("%q", r.v)}
		if n := len(segs); n > 0 && segs[n-1].v6 == s.v6 {
			l := &segs[n-1]
			if s.lo.le(l.hi) {
				return "", fmt.Errorf("%v belongs to several networks", r.p)
			}
			if l.hi.inc() == s.lo && l.s == s.s {
				l.hi = s.hi
				continue
			}
		}
		segs = append(segs, s)
	}
	for _, s := range segs {
		fmt.Fprintf(&sb, "%s-%s %s\n", textIP(s.lo, s.v6), textIP(s.hi, s.v6), s.s)
	}
	return sb.String(), nil
}

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "a case is a dataset whose rows share storage in one of five ways, 1-6 field operations, a line database and a pattern of its failing lookups; after each operation every row is compared with a model whose rows share nothing, merging with the mapping of addresses to values before it, and a second dataset sharing the storage with what it was; " +
			"non-trivial if an operation changed something",
		Real: []string{"db/field/operate", "db/field/data", "ipnet", "db/query and db/format/* (line database)"},
		Stub: []string{"failures of the line database's lookups", "map iteration order"},
		New:  func() any { return &c08{} },
		Gen: func(r *Rand, tier string) any {
			c := &c08{Layout: r.N(5)}
			o := dsOpt{full: r.One(4)}
			if o.full {
				o.splits = r.In(1, 3)
			}
			switch r.N(3) {
			case 0:
				o.fields = []string{"country", "province", "city", "isp", "asn", "continent", "district"}
			case 1:
				o.fields = []string{"isp", "line", "asn", "country", "district", "province"}
			}
			c.DS = genDS(r, o)
			if colOf(c.DS.F, "isp") >= 0 && r.One(3) { // more rows to trim
				for _, row := range c.DS.R {
					row.V[colOf(c.DS.F, "isp")] = r.S("电信", "联通", "移动", "铁通", "鹏博士", "x")
					if a := colOf(c.DS.F, "asn"); a >= 0 {
						row.V[a] = r.S("", "1", "2", "3")
					}
				}
			}
			if p := colOf(c.DS.F, "province"); p >= 0 && r.One(2) {
				ps := sortedKeys(regions)
				for _, row := range c.DS.R {
					if r.One(2) {
						row.V[p] = ps[r.N(len(ps))]
					}
				}
			}
			if r.N(3) > 0 {
				c.Line = genLineDB(r)
				switch r.N(4) {
				case 0:
					c.All = r.One(2)
				case 1, 2:
					for k := r.In(1, 4); k > 0; k-- {
						c.Fail = append(c.Fail, r.In(1, 1+len(c.DS.R)*2))
					}
				}
				if len(c.DS.R) > 0 && r.One(3) {
					c.FailA = append(c.FailA, r.N(len(c.DS.R)))
				}
			}
			for k := r.In(1, 6); k > 0; k-- {
				o := opKinds[r.N(len(opKinds))]
				if (o == "line" || o == "linerep") && c.Line == nil {
					o = "merge"
				}
				c.Ops = append(c.Ops, o)
			}
			if r.One(6) { // a table of one's own
				f := c.DS.F[r.N(len(c.DS.F))]
				if r.One(3) {
					f = r.S("city", "province", "isp", "country")
				}
				var sb strings.Builder
				for k := r.In(0, 12); k > 0; k-- {
					x := genValue(r, f, false)
					if len(c.DS.R) > 0 && colOf(c.DS.F, f) >= 0 {
						x = c.DS.R[r.N(len(c.DS.R))].V[colOf(c.DS.F, f)]
					}
					switch r.N(5) {
					case 0:
						sb.WriteString("\n")
					case 1:
						sb.WriteString(x + "\n")
					default:
						sb.WriteString(x + "\t" + r.S("N", "北京", genValue(r, f, false)) + "\n")
					}
				}
				c.Load = []string{f, sb.String()}
				c.Ops[r.N(len(c.Ops))] = "shortage"
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c08)
			if !c.DS.valid() || newModel(c.DS).over || c.Layout < 0 || c.Layout > 4 || (c.Line != nil && !c.Line.valid()) {
				return invalid("case")
			}
			for _, r := range c.DS.R {
				if p, _ := parsePfx(r.C); p.v6 && p.has(A{0, 0xffff00000000}) && c.DS.V == 3 {
					return invalid("v4 space")
				}
			}
			rt.SetMapSeed(c.Map)
			l := &lineDB{c: c}
			tables := c.tables()
			for i := 0; i+1 < len(c.Load); i += 2 {
				o := rt.Do(openBudget, func() { data.Load(c.Load[i], c.Load[i+1]) })
				if v := outVerdict(o, "loading a table"); v != nil {
					return v
				}
			}
			if c.Line != nil {
				var err error
				o := rt.Do(openBudget, func() { l.q, err = openLine(c.Line) })
				if v := outVerdict(o, "opening the line database"); v != nil {
					return v
				}
				if err != nil {
					return nil
				}
			}
			d := c.DS.laidOut(c.Layout)
			for _, k := range c.FailA {
				if k < 0 || k >= len(c.DS.R) {
					return invalid("faila")
				}
				p, _ := parsePfx(c.DS.R[k].C)
				l.down = append(l.down, p)
			}
			// another dataset of the same rows
			other := &inf.IpData{Fields: d.Fields, Version: &inf.VersionInfo{}, Ips: append([]inf.IpRaw(nil), d.Ips...)}
			*other.Version = *d.Version
			was := canonData(other, nil)
			fs := cloneStrs(d.Fields)
			rows, err := rowsOf(d)
			if err != nil {
				return invalid("%v", err)
			}
			for n, op := range c.Ops {
				f := opByName(op, l, map[string]string{"4134": "电信", "4837": "联通", "9394": "移动", "64512": ""})
				if f == nil || (l.q == nil && (op == "line" || op == "linerep")) {
					return invalid("op %q", op)
				}
				l.asked = nil
				before := canonData(d, nil)
				o := rt.Do(dumpBudget, func() { f(d) })
				if v := outVerdict(o, fmt.Sprintf("operation %d (%s)", n, op)); v != nil {
					return v
				}
				x.Nontrivial = x.Nontrivial || canonData(d, nil) != before
				got, err := rowsOf(d)
				if err != nil {
					return bad("malformed", "after operation %d (%s): %v", n, op, err)
				}
				if s := canonData(other, nil); s != was {
					return bad("shared", "operation %d (%s) changed another dataset: %s", n, op, diffAt(s, was))
				}
				if op == "merge" {
					if !eqStrs(d.Fields, fs) {
						return bad("fields", "merging changed the fields to %q from %q", d.Fields, fs)
					}
					a, err := mapping(got)
					b, _ := mapping(rows)
					if err != nil {
						return bad("overlap", "after operation %d (merge): %v", n, err)
					}
					if a != b {
						return bad("merge", "operation %d (merge) changed the values of addresses: %s", n, diffAt(a, b))
					}
					rows = got
					continue
				}
				var want []mr
				var may []map[string]bool
				var k int
				fs, want, may, k = applyModel(op, fs, rows, l, tables)
				if !eqStrs(d.Fields, fs) {
					return bad("fields", "operation %d (%s) left the fields %q instead of %q", n, op, d.Fields, fs)
				}
				if len(got) != len(want) {
					return bad("rows", "operation %d (%s) left %d rows of %d", n, op, len(got), len(want))
				}
				for i := range want {
					if got[i].p != want[i].p {
						return bad("rows", "operation %d (%s): row %d is of %v instead of %v", n, op, i, got[i].p, want[i].p)
					}
					for j := range fs {
						g := got[i].v[j]
						if may != nil && j == k {
							if len(may[i]) == 0 {
								return bad("lookup", "operation %d (%s): %v got %s %q without a lookup of its own", n, op, want[i].p, fs[j], g)
							}
							if !may[i][g] {
								return bad("line", "operation %d (%s): %v got %s %q, its own lookups give %q", n, op, want[i].p, fs[j], g, sortedKeys(may[i]))
							}
							if len(may[i]) > 1 {
								Probe("line asked repeatedly")
							}
							want[i].v[j] = g
							continue
						}
						if g != want[i].v[j] {
							return bad("value", "operation %d (%s): %v has %s %q instead of %q (it was %q)", n, op, want[i].p, fs[j], g, want[i].v[j], rows[i].v)
						}
					}
				}
				rows = got
			}
			return nil
		},
	})
}
