//go:build go1.25

package h

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/format/awdb"
	_ "github.com/qiniu/uip/db/format/ipdb"
	_ "github.com/qiniu/uip/db/format/memip"
	_ "github.com/qiniu/uip/db/format/plain"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
)

const openBudget = 4_000_000

// Op is one lookup by a caller.
type Op struct {
	K string `json:"k"`
	A string `json:"a,omitempty"`
}

// DB is a database a case opens.
type DB struct {
	Kind string  `json:"kind"` // .ipdb or .awdb
	DS   *DS     `json:"ds"`
	Aw   AwOpt   `json:"aw,omitempty"`
	Ip   IpdbOpt `json:"ip,omitempty"`
	EOL  string  `json:"eol,omitempty"`  // line end of a text source; "" for a newline
	Open bool    `json:"open,omitempty"` // the last line of a text source has no line end
	Join bool    `json:"join,omitempty"` // adjacent rows of equal values are one range (memip)
	Dmg  []Dmg   `json:"dmg,omitempty"`
}

func (d *DB) valid() bool {
	if !d.DS.valid() || newModel(d.DS).over {
		return false
	}
	if d.Kind == ".awdb" {
		if d.DS.V == 3 || (d.Aw.Rec != 24 && d.Aw.Rec != 28 && d.Aw.Rec != 32) || d.Aw.Pad < 0 || d.Aw.Pad > 1<<25 || d.Aw.Mix < 0 || d.Aw.Mix > 20 {
			return false
		}
	} else if d.Kind != ".ipdb" && d.Kind != ".scan" && d.Kind != ".memip" {
		return false
	}
	for _, r := range d.DS.R {
		p, _ := parsePfx(r.C)
		if p.v6 && p.bits == 0 {
			return false
		}
		if p.v6 && d.DS.V == 3 && p.has(A{0, 0xffff00000000}) {
			return false
		}
		size := 0
		for _, v := range r.V {
			if strings.ContainsAny(v, "\t") {
				return false
			}
			size += len(v) + 1
		}
		if d.Kind == ".ipdb" && (size > 65536 || size > 65000 && (d.Ip.Lang > 0 || d.Ip.Pad)) {
			return false
		}
	}
	return true
}

func (d *DB) bytes() []byte {
	var b []byte
	switch d.Kind {
	case ".awdb":
		b = writeAwdb(d.DS, d.Aw)
	case ".scan":
		b = writeScan(d.DS, d.EOL)
	case ".memip":
		b = writeMemip(d.DS, d.EOL, d.Join)
	default:
		b = writeIpdb(d.DS, d.Ip)
	}
	if d.Open && (d.Kind == ".scan" || d.Kind == ".memip") {
		b = bytes.TrimSuffix(bytes.TrimSuffix(b, []byte("\n")), []byte("\r"))
	}
	return applyDmg(b, d.Dmg)
}

// want is the answer the model gives: the record and prefix length, or absent.
func (d *DB) want(m *Model, ip net.IP) (*inf.IpInfo, int, bool) {
	a, v6 := addrOf(ip)
	if d.Kind == ".awdb" {
		if d.DS.V == 2 && !v6 {
			v6 = true // IPv4 lives under ::/96
			a = A{0, a.lo}
			x, ok := m.find(a, true)
			if !ok {
				return nil, 0, false
			}
			bits := x.p.bits - 96
			if x.p.bits < 96 {
				bits = x.p.bits
			}
			i := *d.DS.info(x.row)
			i.District, i.Continent = "", d.DS.raw(x.row, "continent")
			return &i, bits, true
		}
		x, ok := m.find(a, v6)
		if !ok {
			return nil, 0, false
		}
		i := *d.DS.info(x.row)
		i.District, i.Continent = "", d.DS.raw(x.row, "continent")
		bits := x.p.bits
		if bits == 0 {
			bits = 1 // the writer stores the whole range as two halves
		}
		return &i, bits, true
	}
	x, ok := m.find(a, v6)
	if !ok {
		return nil, 0, false
	}
	return d.DS.info(x.row), x.p.bits, true
}

func (d *DS) raw(row int, f string) string {
	for i, x := range d.F {
		if x == f {
			return d.R[row].V[i]
		}
	}
	return ""
}

func genDB(r *Rand, o dsOpt) *DB {
	d := &DB{Kind: ".ipdb"}
	if r.One(3) {
		d.Kind = ".awdb"
		o.v = r.I(1, 1, 2)
		if r.One(2) && !o.big {
			o.full = true
			o.splits = r.In(1, 3)
		}
	}
	d.DS = genDS(r, o)
	if d.Kind == ".awdb" {
		d.Aw = genAwOpt(r)
		if d.DS.V == 1 {
			// the reader insists on a record for 8.8.8.8
			if _, ok := newModel(d.DS).find(A{0, 0x08080808}, false); !ok {
				v := make([]string, len(d.DS.F))
				for i, f := range d.DS.F {
					v[i] = genValue(r, f, false)
				}
				d.DS.R = append(d.DS.R, Row{"8.8.8.8/32", v})
			}
		}
		var k []Row
		for _, x := range d.DS.R {
			if p, _ := parsePfx(x.C); !(p.v6 && p.bits == 0) {
				k = append(k, x)
			}
		}
		d.DS.R = k
	} else {
		d.Ip = genIpdbOpt(r)
	}
	if o.bulk {
		if d.Kind == ".ipdb" {
			d.Ip.Lang, d.Ip.Pad = 0, false
		}
		d.DS.bulk(r, d.Kind == ".awdb")
	}
	return d
}

func showInfo(i *inf.IpInfo) string {
	if i == nil {
		return "nil"
	}
	return fmt.Sprintf("%+v", *i)
}

func showVersion(v *inf.VersionInfo) string {
	if v == nil {
		return "nil"
	}
	l := cloneStrs(v.Languages)
	sort.Strings(l)
	return fmt.Sprintf("type=%d count=%d build=%d version=%q lang=%q extra=%q", v.IpType, v.Count, v.Build, v.Version, l, v.ExtraInfo)
}

// copies of one database opened for a caller
type opened struct {
	db *query.Db
	aw *awdb.Reader
}

func (d *DB) open(b []byte) (*opened, error) {
	db, err := query.NewDbFromBytes(d.Kind, b)
	if err != nil {
		return nil, err
	}
	o := &opened{db: db}
	if d.Kind == ".awdb" {
		if o.aw, err = awdb.FromBytes(b); err != nil {
			return nil, err
		}
	}
	return o, nil
}

type awRec struct {
	Country  string  `awdb:"country"`
	Province string  `awdb:"province"`
	City     string  `awdb:"city"`
	ISP      string  `awdb:"isp"`
	Asn      string  `awdb:"asnumber"`
	Line     string  `awdb:"line"`
	Cont     uintptr `awdb:"continent"`
	skip     int
}

type awRec2 struct {
	Country string `awdb:"country"`
	awEmb
}
type awEmb struct {
	City string `awdb:"city"`
}

func showMap(m map[string]interface{}) string {
	var ks []string
	for k, v := range m {
		if b, ok := v.([]byte); ok {
			ks = append(ks, k+"="+string(b))
		} else {
			ks = append(ks, fmt.Sprintf("%s=%v", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

// do performs one lookup and renders its answer.
func (o *opened) do(op Op) string {
	ans := func(i *inf.IpInfo, mask int, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprintf("%s /%d", showInfo(i), mask)
	}
	ip := net.ParseIP(op.A)
	switch op.K {
	case "q":
		return ans(o.db.Query(ip))
	case "q4":
		if ip.To4() != nil {
			ip = ip.To4()
		}
		return ans(o.db.Query(ip))
	case "s":
		return ans(o.db.QueryStr(op.A))
	case "u":
		a, v6 := addrOf(ip)
		if v6 {
			return "n/a"
		}
		return ans(o.db.QueryU32(uint32(a.lo)))
	case "i":
		return ans(query.GetIntern(o.db).Query(ip))
	case "v":
		return showVersion(o.db.VersionInfo())
	case "c4":
		return fmt.Sprint(o.db.CheckV4())
	case "c6":
		return fmt.Sprint(o.db.CheckV6())
	}
	if o.aw == nil {
		return "n/a"
	}
	switch op.K {
	case "l": // into a struct
		var rec awRec
		err := o.aw.Lookup(ip, &rec)
		rec.Cont = 0
		return fmt.Sprintf("%+v %v", rec, err)
	case "l2":
		var rec awRec2
		err := o.aw.Lookup(ip, &rec)
		return fmt.Sprintf("%+v %v", rec, err)
	case "n": // network, into an interface
		var x interface{}
		n, ok, err := o.aw.LookupNetwork(ip, &x)
		m, _ := x.(map[string]interface{})
		return fmt.Sprintf("%v %v %v %s", n, ok, err, showMap(m))
	case "m": // into a map
		x := map[string]string{}
		err := o.aw.Lookup(ip, &x)
		return fmt.Sprintf("%v %v", x, err)
	case "o":
		off, err := o.aw.LookupOffset(ip)
		if err != nil || off == awdb.NotFound {
			return fmt.Sprintf("%v %v", off == awdb.NotFound, err)
		}
		var x interface{}
		err = o.aw.Decode(off, &x)
		m, _ := x.(map[string]interface{})
		return fmt.Sprintf("%v %s", err, showMap(m))
	case "w":
		var sb strings.Builder
		w := 32
		if len(ip) == 16 && ip.To4() == nil {
			w = 128
		} else {
			ip = ip.To4()
		}
		if o.aw.Metadata.IPVersion == 4 && w == 128 {
			return "n/a"
		}
		it := o.aw.NetworksWithin(&net.IPNet{IP: ip, Mask: net.CIDRMask(w/4, w)})
		k := 0
		for it.Next() {
			var x interface{}
			n, err := it.Network(&x)
			m, _ := x.(map[string]interface{})
			fmt.Fprintf(&sb, "%v %v %s;", n, err, showMap(m))
			if k++; k > 4 {
				break
			}
		}
		fmt.Fprintf(&sb, "%v", it.Err())
		return sb.String()
	}
	return "n/a"
}

func genOps(r *Rand, d *DB, n int) []Op {
	m := newModel(d.DS)
	ips := m.probes(r, 10)
	kinds := []string{"q", "q", "q", "q4", "s", "u", "i", "v", "c4", "c6"}
	if d.Kind == ".awdb" {
		kinds = []string{"q", "q", "s", "u", "v", "l", "l", "l2", "n", "m", "o", "w", "c4"}
	}
	var ops []Op
	for i := 0; i < n; i++ {
		op := Op{K: kinds[r.N(len(kinds))]}
		if op.K != "v" && op.K != "c4" && op.K != "c6" {
			op.A = ips[r.N(len(ips))].String()
			if op.K == "s" && r.One(8) {
				op.A = r.S("", "1.2.3", "x", "1.2.3.4.5", ":::", "1.2.3.4/8")
			}
		}
		ops = append(ops, op)
	}
	return ops
}

func genSched(r *Rand) rt.Sched {
	s := rt.Sched{Seed: r.U64()}
	switch r.N(5) {
	case 0:
		s.Kind, s.Mean = "rand", 2
	case 1:
		s.Kind, s.Mean = "rand", 10
	case 2:
		s.Kind, s.Mean = "rand", 60
	case 3:
		s.Kind, s.Depth, s.Est = "pct", r.In(1, 4), 400
	case 4:
		s.Kind, s.Depth, s.Est = "pct", r.In(1, 6), 3000
	}
	return s
}

// C01: concurrent lookups behave like isolated lookups.
type c01 struct {
	DB    *DB      `json:"db"`
	Tasks [][]Op   `json:"tasks"`
	Open  []bool   `json:"open,omitempty"` // that task opens a database of its own meanwhile
	Sched rt.Sched `json:"sched"`
	Map   uint64   `json:"map,omitempty"`
}

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "a case is a database (ipdb or awdb, written by the harness), 2-5 tasks of lookups sharing it and a schedule; " +
			"non-trivial if at least two tasks were runnable at a decision and the interleaving switched inside a call",
		Real: []string{"db/query", "db/format/ipdb (reader, querier)", "db/format/awdb (reader, decoder, traverse, querier)", "db/inf", "ipnet"},
		Stub: []string{"goroutine scheduler (task gates)", "package sync (same semantics, waiting decided by the scheduler)", "package time (simulated clock)", "map iteration order"},
		New:  func() any { return &c01{} },
		Gen: func(r *Rand, tier string) any {
			c := &c01{DB: genDB(r, dsOpt{special: r.One(2), bulk: r.One(60), big: r.One(300)}), Sched: genSched(r)}
			if r.One(6) {
				c.DB.Dmg = genDmg(r, len(c.DB.bytes()), 1)
			}
			n := r.In(2, 5)
			for i := 0; i < n; i++ {
				c.Tasks = append(c.Tasks, genOps(r, c.DB, r.In(1, 6)))
				c.Open = append(c.Open, r.One(12))
			}
			if r.One(3) { // everybody asks for the same
				for i := range c.Tasks {
					c.Tasks[i] = c.Tasks[0]
				}
			}
			if r.One(2) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c01)
			if c.DB == nil || !c.DB.valid() || len(c.Tasks) == 0 {
				return invalid("db")
			}
			rt.SetMapSeed(c.Map)
			b := c.DB.bytes()
			m := newModel(c.DB.DS)
			// the reference: every operation alone on a copy of its own
			want := map[Op]string{}
			var ref *opened
			var err error
			o := rt.Do(openBudget, func() { ref, err = c.DB.open(append([]byte(nil), b...)) })
			if o.Bad() != "" || err != nil {
				if len(c.DB.Dmg) > 0 {
					return nil // damaged files are C06's business
				}
				if o.Bad() != "" {
					return outVerdict(o, "opening a valid database")
				}
				return bad("open", "opening a valid database failed: %v", err)
			}
			for _, t := range c.Tasks {
				for _, op := range t {
					if _, ok := want[op]; ok {
						continue
					}
					var s string
					o := rt.Do(openBudget, func() { s = ref.do(op) })
					if o.Bad() != "" {
						if len(c.DB.Dmg) > 0 {
							return nil
						}
						return outVerdict(o, fmt.Sprintf("lookup %v", op))
					}
					want[op] = s
					if len(c.DB.Dmg) == 0 {
						if v := c.DB.checkOp(m, op, s); v != nil {
							return v
						}
					}
				}
			}
			var db *opened
			o = rt.Do(openBudget, func() { db, err = c.DB.open(b) })
			if o.Bad() != "" || err != nil {
				return bad("open", "opening the same bytes a second time: %v %v", o.Bad(), err)
			}
			got := make([][]string, len(c.Tasks))
			var tasks []rt.Task
			for i := range c.Tasks {
				ops := c.Tasks[i]
				got[i] = make([]string, len(ops))
				own := i < len(c.Open) && c.Open[i]
				tasks = append(tasks, rt.Task{F: func() {
					d := db
					if own {
						if x, err := c.DB.open(append([]byte(nil), b...)); err == nil {
							d = x
						} else {
							got[i][0] = "open: " + err.Error()
							return
						}
					}
					for k, op := range ops {
						got[i][k] = d.do(op)
					}
				}})
			}
			res := rt.Run(c.Sched, openBudget*(len(tasks)+1), nil, tasks...)
			x.Segs = res.Segs
			x.Nontrivial = rt.Multi && len(res.Segs) > len(tasks)
			x.Extra = rt.SchedHash
			if v := verdictOf(res, "concurrent lookups"); v != nil {
				return v
			}
			for i := range c.Tasks {
				for k, op := range c.Tasks[i] {
					if got[i][k] != want[op] {
						return bad("mismatch", "caller %d, lookup %d %v: got %s; alone on a fresh copy: %s", i, k, op, clip(got[i][k], 600), clip(want[op], 600))
					}
				}
			}
			return nil
		},
	})
}

// checkOp compares an answer with the model, where the model knows it.
func (d *DB) checkOp(m *Model, op Op, got string) *Verdict {
	switch op.K {
	case "q", "q4", "s", "u", "i":
	default:
		return nil
	}
	ip := net.ParseIP(op.A)
	if got == "n/a" {
		return nil
	}
	if ip == nil {
		if !strings.HasPrefix(got, "error: ") {
			return bad("answer", "%v answered %s", op, got)
		}
		return nil
	}
	i, mask, ok := d.want(m, ip)
	if !ok {
		if !strings.HasPrefix(got, "error: ") {
			return bad("answer", "%v is in no network but was answered %s", op, clip(got, 600))
		}
		return nil
	}
	w := fmt.Sprintf("%s /%d", showInfo(i), mask)
	if got != w {
		return bad("answer", "%v: got %s, the dataset says %s", op, clip(got, 600), clip(w, 600))
	}
	return nil
}
