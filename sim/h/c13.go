//go:build go1.25

package h

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// C13: a converted copy answers like its source.
type c13 struct {
	Src   *DB       `json:"src"`
	Drop  []int     `json:"drop,omitempty"` // rows the source lacks
	Odd   []odd13   `json:"odd,omitempty"`  // values with characters a format may not hold
	Steps []*step13 `json:"steps"`
	Map   uint64    `json:"map,omitempty"`
}

type odd13 struct {
	Row int    `json:"row"`
	Col int    `json:"col"`
	S   string `json:"s"`
}

type step13 struct {
	Rule   string         `json:"rule,omitempty"`
	Merge  bool           `json:"merge,omitempty"`
	Kind   string         `json:"kind"`
	Read   []*simos.Fault `json:"read,omitempty"`  // faults of the first attempt to read
	Write  []*simos.Fault `json:"write,omitempty"` // and of the first to write
	Chunk  int            `json:"chunk,omitempty"`
	Gentle bool           `json:"gentle,omitempty"` // the target is another name each time
}

var mappedNet = Pfx{A{0, 0xffff00000000}, 96, true}

// punch cuts the block of IPv4-mapped addresses out of the networks: as IPv6
// addresses they cannot be asked for.
func punch(rows []Row) []Row {
	var out []Row
	for _, r := range rows {
		p, _ := parsePfx(r.C)
		if !p.v6 || !p.has(mappedNet.a) || p.bits >= 96 {
			out = append(out, r)
			continue
		}
		q := p
		var parts []Pfx
		for q.bits < 96 {
			b := mappedNet.a.bit(q.bits, 128)
			parts = append(parts, Pfx{q.lo().setBit(q.bits, 128, 1-b), q.bits + 1, true})
			q = Pfx{q.lo().setBit(q.bits, 128, b), q.bits + 1, true}
		}
		sort.Slice(parts, func(i, j int) bool { return parts[i].lo().less(parts[j].lo()) })
		for _, x := range parts {
			out = append(out, Row{x.String(), r.V})
		}
	}
	return out
}

// exportModel is the documented meaning of a rule.
func exportModel(rule string, get func(string) string) ([]string, []string) {
	groups := strings.Split(rule, "|")
	fs := strings.Split(groups[0], ",")
	v := make([]string, len(fs))
	for i, f := range fs {
		v[i] = get(f)
	}
next:
	for _, g := range groups[1:] {
		parts := strings.SplitN(g, ":", 2)
		if len(parts) != 2 || strings.Count(parts[0], "=") != 1 || strings.Contains(parts[0], ",") {
			continue // not a condition
		}
		kc := strings.SplitN(parts[0], "=", 2)
		key := colOf(fs, kc[0])
		keep := strings.Split(parts[1], ",")
		for _, k := range keep {
			if colOf(fs, k) < 0 {
				continue next
			}
		}
		if key < 0 {
			continue
		}
		not := strings.HasPrefix(kc[1], "!")
		in := colOf(strings.Split(strings.TrimPrefix(kc[1], "!"), "/"), v[key]) >= 0
		if in == not {
			continue
		}
		for i, f := range fs {
			if colOf(keep, f) < 0 {
				v[i] = ""
			}
		}
	}
	return fs, v
}

var awCommon = []string{"country", "province", "city", "isp", "asn", "continent", "line"}

// sourceAnswer is the value of a field the source gives.
func sourceAnswer(kind string, fs, v []string, f string) (string, bool) {
	k := colOf(fs, f)
	switch kind {
	case ".awdb":
		if colOf(awCommon, f) < 0 {
			return "", false
		}
	case ".ipdb":
		if colOf(commonFields, f) < 0 && f != "utcOffset" && f != "latitude" {
			return "", false
		}
	}
	if k < 0 {
		return "", false
	}
	if n, ok := continentNames[v[k]]; ok && kind == ".ipdb" && f == "continent" {
		return n, true
	}
	return v[k], true
}

// badGroups are no conditions and change nothing.
var badGroups = []string{"", ":", "=", "=:", ":=", "F", "F:F", "F=", "F=a", ":F", "=:F", "=a:F", "F=a=b:F", "F==:F", "F=a:F:F", "F=a:", "F=a:nosuch", "F=a:F,nosuch", "F=a,F:F", ",", "|", "||F:F"}

func genRule13(r *Rand, fs []string) string {
	switch r.N(5) {
	case 0, 1:
		return ""
	case 2:
		return rules[r.N(len(rules))]
	case 3:
		return export.DefaultRule
	}
	pick := func(from []string) []string {
		var out []string
		for _, f := range from {
			if r.One(2) {
				out = append(out, f)
			}
		}
		if len(out) == 0 {
			out = append(out, from[r.N(len(from))])
		}
		for i := len(out) - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	all := cloneStrs(fs)
	for _, f := range commonFields {
		if colOf(all, f) < 0 && r.One(4) {
			all = append(all, f)
		}
	}
	sel := pick(all)
	rule := strings.Join(sel, ",")
	for k := r.In(0, 3); k > 0; k-- {
		key := sel[r.N(len(sel))]
		if r.One(10) {
			key = "nosuch"
		}
		var vals []string
		for m := r.In(1, 2); m > 0; m-- {
			if v, ok := vocab[key]; ok {
				vals = append(vals, strings.NewReplacer(",", "", "/", "", "|", "", ":", "", "=", "").Replace(v[r.N(len(v))]))
			} else {
				vals = append(vals, "1")
			}
		}
		not := ""
		if r.One(2) {
			not = "!"
		}
		rule += "|" + key + "=" + not + strings.Join(vals, "/") + ":" + strings.Join(pick(sel), ",")
	}
	if r.One(6) {
		rule += "|" + strings.ReplaceAll(badGroups[r.N(len(badGroups))], "F", sel[r.N(len(sel))])
	}
	return rule
}

// spans13 checks that the rows are ascending and disjoint and returns what is
// not covered of the family.
func spans13(rows []mr, v6 bool) ([]span, error) {
	var gaps []span
	next, done := A{}, false
	var n int
	for _, r := range rows {
		if r.p.v6 != v6 {
			continue
		}
		n++
		if done || r.p.lo().less(next) {
			return nil, fmt.Errorf("%v is not beyond the network before it", r.p)
		}
		if next.less(r.p.lo()) {
			gaps = append(gaps, span{lo: next, hi: r.p.lo().dec(), v6: v6})
		}
		if r.p.hi() == low(width(v6)) {
			done = true
		}
		next = r.p.hi().inc()
	}
	if !done {
		gaps = append(gaps, span{lo: next, hi: low(width(v6)), v6: v6})
	}
	return gaps, nil
}

func notMapped(g []span) []span {
	var out []span
	for _, x := range g {
		if x.v6 && mappedNet.lo().le(x.lo) && x.hi.le(mappedNet.hi()) {
			continue
		}
		out = append(out, x)
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "a case is a source (ipdb, awdb or scan; IPv4, IPv6 or both; complete or not) and a chain of 1-4 conversions with rules and targets, each read and written amid failures and retried; every dataset obtained and every copy is compared with a model of what the source answers, reduced by an independent model of the rule; " +
			"non-trivial if a copy was made",
		Real: []string{"db/convert", "db/format/*", "db/field/export", "db/field/operate (merging)", "db/query", "ipnet"},
		Stub: []string{"file system (in memory, faults injected)", "clock", "map iteration order"},
		New:  func() any { return &c13{} },
		Gen: func(r *Rand, tier string) any {
			c := &c13{}
			fs := append([]string{}, commonFields...)
			fs = append(fs, "utcOffset", "latitude", "zone")
			for i := len(fs) - 1; i > 0; i-- {
				j := r.N(i + 1)
				fs[i], fs[j] = fs[j], fs[i]
			}
			o := dsOpt{full: true, splits: r.In(1, 3), fields: fs[:r.In(1, len(fs))], special: r.One(4), v: r.I(1, 1, 1, 2, 2, 3)}
			kind := r.S(".ipdb", ".awdb", ".scan", ".scan", ".memip")
			if kind == ".memip" {
				o.fields, o.v, o.noCodes = memipFields, r.I(1, 2), r.One(2)
			}
			if kind == ".awdb" && o.v == 3 {
				o.v = 2
			}
			if tier == "thorough" && r.One(8) {
				o.splits = r.In(5, 20)
			}
			both := o.v == 3
			if both { // the parts are made one by one
				o.v = 1
			}
			d := &DB{Kind: kind, DS: genDS(r, o)}
			if both {
				o.v = 2
				d6 := genDS(r, o)
				d.DS.V = 3
				d.DS.R = append(d.DS.R, punch(d6.R)...)
			} else if o.v == 2 && (r.One(2) || kind == ".memip") {
				d.DS.R = punch(d.DS.R)
			}
			switch kind {
			case ".awdb":
				d.Aw = genAwOpt(r)
			case ".ipdb":
				d.Ip = genIpdbOpt(r)
			case ".memip":
				if d.Join = r.One(2); d.Join {
					joinable(r, d.DS)
				}
				fallthrough
			case ".scan":
				if r.One(4) {
					d.EOL = "\r\n"
				}
				d.Open = r.One(4)
			}
			d.DS.Share = false
			if r.One(40) {
				d.DS.bulk(r, kind != ".ipdb")
				d.Ip = IpdbOpt{}
			}
			c.Src = d
			if r.One(5) && (kind != ".memip" || len(d.DS.R) > 2) {
				for k := r.In(1, 2); k > 0; k-- {
					c.Drop = append(c.Drop, r.N(len(d.DS.R)))
				}
			}
			if kind != ".scan" && kind != ".memip" && r.One(6) {
				s := odd13{r.N(len(d.DS.R)), r.N(len(d.DS.F)), r.S("\n", "a\nb", "x\r", "\r\n")}
				if kind == ".awdb" {
					s.S = r.S("\t", "a\tb", s.S, s.S)
				}
				c.Odd = append(c.Odd, s)
			}
			n := r.I(1, 1, 2, 2, 3, 4)
			for i := 0; i < n; i++ {
				s := &step13{Rule: genRule13(r, d.DS.F), Kind: r.S(".ipdb", ".scan"), Merge: r.One(3), Gentle: r.One(2)}
				if r.One(4) {
					s.Read = genReadFaults(r, 2000)
				}
				if r.One(3) {
					s.Write = genWriteFaults(r, 2000)
				}
				if r.One(4) {
					s.Chunk = r.I(64, 511, 1000, 4096)
				}
				c.Steps = append(c.Steps, s)
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c13)
			if c.Src == nil || !c.Src.valid() || len(c.Src.Dmg) > 0 || len(c.Steps) == 0 {
				return invalid("src")
			}
			src := *c.Src
			ds := *c.Src.DS
			src.DS = &ds
			drop := map[int]bool{}
			for _, k := range c.Drop {
				drop[k] = true
			}
			ds.R = nil
			for i, r := range c.Src.DS.R {
				r.V = cloneStrs(r.V)
				for _, o := range c.Odd {
					if o.Row == i && o.Col >= 0 && o.Col < len(r.V) {
						if src.Kind == ".scan" || src.Kind == ".memip" || (src.Kind == ".ipdb" && strings.Contains(o.S, "\t")) {
							return invalid("odd")
						}
						r.V[o.Col] = o.S
					}
				}
				if !drop[i] {
					ds.R = append(ds.R, r)
				}
			}
			rt.SetMapSeed(c.Map)
			fsys := simos.New()
			simos.Mount(fsys)
			name := "/w/src" + src.Kind
			fsys.Put(name, src.bytes())
			// the model of the current source
			kind, fs := src.Kind, cloneStrs(ds.F)
			var rows []mr
			for _, r := range ds.R {
				p, _ := parsePfx(r.C)
				if p.bits == 0 && kind == ".awdb" {
					for b := 0; b < 2; b++ {
						rows = append(rows, mr{Pfx{A{}.setBit(0, width(p.v6), b), 1, p.v6}, cloneStrs(r.V)})
					}
					continue
				}
				v := cloneStrs(r.V)
				if kind == ".scan" {
					for i := range v {
						v[i] = strings.ReplaceAll(v[i], ",", "_")
					}
				}
				if kind == ".memip" {
					for i := range v {
						v[i] = strings.ReplaceAll(v[i], " ", "_")
						if strings.ContainsAny(v[i], "-\r\n") {
							return invalid("memip value")
						}
					}
				}
				rows = append(rows, mr{p, v})
			}
			if kind == ".memip" && (len(rows) == 0 || ds.V == 3 || !eqStrs(fs, memipFields) || len(noMapped(rows)) < len(rows)) {
				return invalid("memip")
			}
			for n, s := range c.Steps {
				if s == nil || (s.Kind != ".ipdb" && s.Kind != ".scan") || !validRead(s.Read) || !validFaults(s.Write) {
					return invalid("step")
				}
				what := fmt.Sprintf("step %d (%s to %s, rule %q)", n, kind, s.Kind, s.Rule)
				// does the source map the whole range?
				var gaps []span
				for _, v6 := range []bool{false, true} {
					if (v6 && ds.V&2 == 0) || (!v6 && ds.V&1 == 0) {
						continue
					}
					g, err := spans13(rows, v6)
					if err != nil {
						return invalid("%v", err)
					}
					if v6 {
						g = notMapped(g)
					}
					gaps = append(gaps, g...)
				}
				var ops []operate.Operate
				if s.Merge {
					ops = append(ops, operate.MergeNearNetwork)
				}
				dump := func() (d *inf.IpData, err error, v *Verdict) {
					o := rt.Do(dumpBudget, func() { d, err = convert.DumpFile(name, s.Rule, ops) })
					return d, err, outVerdict(o, "dumping, "+what)
				}
				fsys.ClearFailed()
				fsys.Faults, fsys.Chunk = s.Read, s.Chunk
				d, err, v := dump()
				fsys.Faults, fsys.Chunk = nil, 0
				if v != nil {
					return v
				}
				if err != nil && fsys.Injected() {
					Probe("read retried")
					if d, err, v = dump(); v != nil {
						return v
					}
				}
				text := kind == ".scan" || kind == ".memip"
				if !text && len(gaps) > 0 {
					if err == nil {
						return bad("incomplete", "%s: the source has no record for %v, yet a dataset was obtained: %s", what, gaps[0], clip(canonData(d, nil), 500))
					}
					Probe("incomplete source refused")
					return nil
				}
				if err != nil {
					return bad("dump", "%s: a source that maps its whole range was refused: %v", what, err)
				}
				if d.Version == nil || int(d.Version.IpType) != ds.V {
					return bad("family", "%s: the dataset is of %s", what, showVersion(d.Version))
				}
				// what it must hold
				var want []mr
				wf := d.Fields
				if s.Rule == "" || kind == ".memip" { // the rows of memip are kept as they are
					var all []string
					for _, f := range append(append([]string{}, awCommon...), "district", "utcOffset", "latitude") {
						_, has := sourceAnswer(kind, fs, make([]string, len(fs)), f)
						if has || kind == ".awdb" && colOf(awCommon, f) >= 0 && colOf(d.Fields, f) >= 0 {
							all = append(all, f)
						}
					}
					if !text && !eqStrs(sortStrs(all), sortStrs(d.Fields)) || text && !eqStrs(d.Fields, fs) {
						return bad("fields", "%s: the dataset has the fields %q, the source %q", what, d.Fields, fs)
					}
					for _, r := range rows {
						var v []string
						for _, f := range d.Fields {
							a, _ := sourceAnswer(kind, fs, r.v, f)
							v = append(v, a)
						}
						want = append(want, mr{r.p, v})
					}
				} else {
					for _, r := range rows {
						var v []string
						wf, v = exportModel(s.Rule, func(f string) string {
							a, _ := sourceAnswer(kind, fs, r.v, f)
							return a
						})
						want = append(want, mr{r.p, v})
					}
					if len(rows) > 0 && !eqStrs(wf, d.Fields) {
						return bad("fields", "%s: the dataset has the fields %q", what, d.Fields)
					}
				}
				got, err := rowsOf(d)
				if err != nil {
					return bad("malformed", "%s: %v", what, err)
				}
				if len(gaps) == 0 {
					for _, v6 := range []bool{false, true} {
						if (v6 && ds.V&2 == 0) || (!v6 && ds.V&1 == 0) {
							continue
						}
						g, err := spans13(got, v6)
						if err != nil {
							return bad("order", "%s: %v", what, err)
						}
						if g = notMapped(g); len(g) > 0 {
							return bad("coverage", "%s: the dataset lacks %s-%s", what, textIP(g[0].lo, v6), textIP(g[0].hi, v6))
						}
					}
				}
				a, err := mapping(noMapped(got))
				if err != nil {
					return bad("overlap", "%s: %v", what, err)
				}
				b, _ := mapping(noMapped(want))
				if a != b {
					return bad("values", "%s: the dataset holds %s (fields %q)", what, diffAt(a, b), wf)
				}
				// the copy
				fits, close := len(d.Fields) > 0, false
				for _, r := range got {
					size, low := 0, 0 // the file holds codes of continents
					for _, v := range r.v {
						size += len(v) + 1
						low += len(v) + 1
						for _, name := range continentNames {
							if v == name {
								low += 2 - len(v)
							}
						}
						if strings.Contains(v, "\t") || s.Kind == ".scan" && strings.ContainsAny(v, "\r\n") {
							fits = false
						}
					}
					if s.Kind == ".ipdb" && (low-1 > 65535 || r.p.v6 && r.p.bits == 0 || ds.V == 3 && r.p.v6 && r.p.has(mappedNet.a)) {
						fits = false
					}
					close = close || s.Kind == ".ipdb" && size-1 > 65535
				}
				target := "/w/copy" + s.Kind
				if s.Gentle || target == name {
					target = fmt.Sprintf("/w/copy%d%s", n, s.Kind)
				}
				pack := func() (err error, v *Verdict) {
					o := rt.Do(dumpBudget, func() { err = convert.PackFile(target, d) })
					return err, outVerdict(o, "packing, "+what)
				}
				fsys.ClearFailed()
				fsys.Faults = s.Write
				err, v = pack()
				fsys.Faults = nil
				if v != nil {
					return v
				}
				if err != nil && fsys.Injected() {
					Probe("write retried")
					if err, v = pack(); v != nil {
						return v
					}
				}
				if !fits {
					if err == nil && len(d.Fields) > 0 {
						return bad("unrepresentable", "%s: the dataset cannot be represented, yet the copy was made", what)
					}
					Probe("unrepresentable refused")
					return nil
				}
				if err != nil && close {
					return nil
				}
				if err != nil {
					return bad("refused", "%s: the copy was refused: %v", what, err)
				}
				x.Nontrivial = true
				name, kind, fs = target, s.Kind, cloneStrs(d.Fields)
				rows = nil
				for _, r := range want {
					v := cloneStrs(r.v)
					if kind == ".scan" {
						for i := range v {
							v[i] = strings.ReplaceAll(v[i], ",", "_")
						}
					}
					rows = append(rows, mr{r.p, v})
				}
				rows = noMapped2(rows, got)
				if kind != ".ipdb" {
					continue
				}
				// the copy answers
				var q *query.Db
				o := rt.Do(dumpBudget, func() { q, err = query.NewDb(name) })
				if v := outVerdict(o, "opening the copy, "+what); v != nil {
					return v
				}
				if err != nil {
					return bad("copy", "%s: the copy does not open: %v", what, err)
				}
				for k, r := range rows {
					if len(rows) > 40 && k%(len(rows)/40) != 0 {
						continue
					}
					for _, a := range []A{r.p.lo(), r.p.hi()} {
						ip := a.IP(r.p.v6, false)
						if r.p.v6 && isMapped(ip) {
							continue
						}
						var i *inf.IpInfo
						o := rt.Do(dumpBudget, func() { i, _, err = q.Query(ip) })
						if v := outVerdict(o, "asking the copy, "+what); v != nil {
							return v
						}
						w := infoOf(fs, r.v)
						if err != nil || showInfo(i) != showInfo(w) {
							return bad("copy", "%s: the copy answers %s %v for %v, the source %s", what, showInfo(i), err, net.IP(ip), showInfo(w))
						}
					}
				}
			}
			return nil
		},
	})
}

func validRead(fs []*simos.Fault) bool {
	for _, f := range fs {
		if f == nil || f.N < 1 || (f.Op != "open" && f.Op != "read") || f.Op == "open" && f.Err == "" {
			return false
		}
	}
	return true
}

// noMapped leaves out networks of IPv4-mapped addresses, which no lookup
// reaches as IPv6 addresses.
func noMapped(rows []mr) []mr {
	var out []mr
	for _, r := range rows {
		if r.p.v6 && r.p.bits >= 96 && mappedNet.has(r.p.a) {
			continue
		}
		out = append(out, r)
	}
	return out
}

// noMapped2 drops mapped networks from the model unless the dataset kept them.
func noMapped2(rows, got []mr) []mr {
	for _, r := range got {
		if r.p.v6 && mappedNet.has(r.p.a) && r.p.bits >= 96 {
			return rows
		}
	}
	return noMapped(rows)
}
