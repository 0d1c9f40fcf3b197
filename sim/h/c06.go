//go:build go1.25

package h

import (
	"encoding/json"
	"fmt"
	"net"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

var memipFields = []string{"city", "province", "district", "isp", "country", "continent"}

func genTextDB(r *Rand, kind string, o dsOpt) *DB {
	if kind == ".memip" {
		o.fields = memipFields
		o.v = r.I(1, 2)
	}
	d := &DB{Kind: kind, DS: genDS(r, o)}
	if r.One(4) {
		d.EOL = "\r\n"
	}
	if kind == ".memip" && r.One(2) {
		d.Join = true
		joinable(r, d.DS)
	}
	d.Open = r.One(4)
	if kind == ".memip" {
		for i := range d.DS.R {
			for k, v := range d.DS.R[i].V {
				if v == "" {
					d.DS.R[i].V[k] = "默认"
				}
			}
		}
	}
	return d
}

// joinable makes neighbours equal.
func joinable(r *Rand, d *DS) {
	for i := 1; i < len(d.R); i++ {
		if r.One(2) {
			d.R[i].V = cloneStrs(d.R[i-1].V)
		}
	}
}

// rawRec makes bytes that look like records of the awdb data section.
func rawRec(r *Rand) []byte {
	n := r.In(1, 40)
	var b []byte
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0, 1: // pointer into the neighbourhood
			o := r.N(len(b) + 8)
			b = append(b, 1<<5|byte(o>>8)&7, byte(o))
		case 2: // far pointer
			b = append(b, 1<<5|byte(r.N(4))<<3|byte(r.N(8)), byte(r.U64()), byte(r.U64()), byte(r.U64()), byte(r.U64()))
		case 3: // map
			b = append(b, 7<<5|byte(r.N(4)))
		case 4: // array
			b = append(b, byte(r.N(4)), 4)
		case 5: // huge map, array, string or bytes
			t := r.I(7, 11, 2, 4)
			c := byte(r.I(29, 30, 31, 31))
			if t > 7 {
				b = append(b, c, byte(t-7))
			} else {
				b = append(b, byte(t<<5)|c)
			}
			b = append(b, byte(r.U64()), byte(r.U64()), byte(r.U64()))
		case 6, 7: // a key or value
			s := r.S("country", "a", "", "isp", "line", "中国")
			b = append(b, byte(2<<5|len(s)))
			b = append(b, s...)
		case 8: // extended types
			b = append(b, byte(r.N(32)), byte(r.I(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 248, 249, 250, 255)))
		case 9:
			b = append(b, byte(r.U64()))
		}
	}
	return b
}

// bomb makes a record of few bytes that unfolds into very many values: each
// level refers to the next one several times.
func bomb(r *Rand) ([]byte, []int) {
	levels, wide := r.I(3, 8, 20, 40, 200), r.I(2, 2, 3, 10, 28)
	kind := r.N(3)
	unit := func(level int) int { // bytes of a level
		if kind == 0 || kind == 2 && level%2 == 0 {
			return 2 + wide*2
		}
		return 1 + wide*4
	}
	var b []byte
	var tops []int
	at := 0
	for l := 0; l < levels; l++ {
		next := at + unit(l)
		if next > 2000 {
			break
		}
		tops = append(tops, at)
		p := []byte{1<<5 | byte(next>>8), byte(next)}
		if unit(l) == 2+wide*2 {
			b = append(b, byte(wide), 4)
			for i := 0; i < wide; i++ {
				b = append(b, p...)
			}
		} else {
			b = append(b, 7<<5|byte(wide))
			for i := 0; i < wide; i++ {
				b = append(b, 2<<5|1, byte('a'+i))
				b = append(b, p...)
			}
		}
		at = next
	}
	b = append(b, 2<<5|1, 'x')
	for len(tops) > 1 && r.One(2) {
		tops = tops[:len(tops)-1]
	}
	if r.One(2) {
		tops = tops[:1]
	}
	return b, tops
}

// C06: damaged input yields an error, never a crash or a hang.
type c06 struct {
	DB    *DB    `json:"db"`
	Bytes []byte `json:"bytes,omitempty"` // instead of the database's
	Rule  string `json:"rule,omitempty"`
	IPs   []Op   `json:"ops"`
	Ops   int    `json:"fieldops,omitempty"`
	File  bool   `json:"file,omitempty"`
	Map   uint64 `json:"map,omitempty"`
}

var rules = []string{"", export.DefaultRule, "line", "country,province,city,isp,asn,continent,line", "isp,nosuch", "country,isp|country=!中国:country|isp=电信/联通:isp",
	"country,isp|country:isp", "country,isp|country=a=b:isp|:|=|", "|", ",", "country,isp|isp=:"}

const dumpBudget = 40_000_000

func u64p(x uint64) *uint64 { return &x }

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "a case is a database file of one of the four formats with 0-4 damages of its bytes (or of its metadata, kept consistent), or arbitrary bytes; it is opened, looked up in, dumped under a rule, transformed and re-packed; " +
			"non-trivial if the bytes differ from a healthy file's",
		Real: []string{"db/format/ipdb", "db/format/awdb", "db/format/plain", "db/format/memip", "db/query", "db/convert", "db/field/export", "db/field/operate", "ipnet"},
		Stub: []string{"file system (in memory)", "clock", "map iteration order"},
		New:  func() any { return &c06{} },
		Gen: func(r *Rand, tier string) any {
			c := &c06{Rule: rules[r.N(len(rules))], File: r.One(3)}
			switch r.N(8) {
			case 0:
				c.DB = genTextDB(r, ".scan", dsOpt{full: r.One(2)})
			case 1:
				c.DB = genTextDB(r, ".memip", dsOpt{full: r.One(2)})
			default:
				o := dsOpt{full: r.One(2), special: r.One(4)}
				if o.full {
					o.splits = r.In(1, 3)
				}
				c.DB = genDB(r, o)
			}
			size := len(c.DB.bytes())
			if c.DB.Kind == ".ipdb" && r.One(3) {
				m := map[string]string{}
				for k := 0; k < r.In(1, 3); k++ {
					switch r.N(8) {
					case 0, 1:
						m["node_count"] = fmt.Sprint([]int64{0, 1, -1, 2, 1 << 31, 1<<32 - 1, 1 << 60, int64(size), int64(size / 8), int64(r.N(size))}[r.N(10)])
					case 2:
						m["fields"] = r.S(`[]`, `["country_name"]`, `null`, `["continent_code","continent_code"]`, `["isp_domain","a","b","c","d","e","f","g","h"]`, `[""]`)
					case 3:
						m["languages"] = r.S(`{}`, `{"CN":-1}`, `{"CN":1}`, `{"CN":1000000}`, `{"CN":-9223372036854775808}`, `{"CN":9223372036854775807}`, `{"EN":0}`, `null`)
					case 4:
						m["ip_version"] = r.S("0", "1", "2", "3", "4", "-1", "255", `"x"`)
					case 5:
						m["total_size"] = fmt.Sprint([]int64{0, -1, int64(r.N(size)), 1 << 62, -1 << 62}[r.N(5)])
					case 6:
						m["build"] = r.S("0", "-1", "9223372036854775807", "-9223372036854775808", "1e3")
					case 7:
						m["extra"] = r.S("null", `[]`, `["a"]`, "1")
					}
				}
				c.DB.Ip.Meta = m
			}
			if c.DB.Kind == ".ipdb" && r.One(6) {
				c.DB.Ip.Links = genLinks(r, len(c.DB.DS.R)*r.I(1, 3, 20))
			}
			if c.DB.Kind == ".awdb" && r.One(3) {
				switch r.N(8) {
				case 6:
					c.DB.Aw.Raw, c.DB.Aw.Top = bomb(r)
				case 7:
					c.DB.Aw.Links = genLinks(r, len(c.DB.DS.R)*3)
				case 0:
					c.DB.Aw.Nodes = u64p([]uint64{0, 1, 2, 1 << 31, 1<<32 - 1, 1 << 61, 1 << 62, ^uint64(0), uint64(r.N(size)), uint64(r.N(200))}[r.N(10)])
					t := r.I(5, 6, 9, 10)
					c.DB.Aw.Typ = &t
				case 1:
					c.DB.Aw.RecSz = u64p([]uint64{0, 1, 4, 8, 20, 24, 28, 32, 36, 64, 65535, 1 << 62, ^uint64(0)}[r.N(13)])
					t := r.I(5, 6, 9)
					c.DB.Aw.Typ = &t
				case 2:
					c.DB.Aw.Ver = u64p(uint64(r.I(0, 4, 6, 5, 65535)))
				case 3:
					c.DB.Aw.MRaw = rawRec(r)
				default:
					c.DB.Aw.Raw = rawRec(r)
				}
			}
			switch r.N(12) {
			case 0:
				n := r.I(0, 1, 3, 4, 5, 10, 100, 1999, 2000, 2500)
				c.Bytes = make([]byte, n)
				for i := range c.Bytes {
					c.Bytes[i] = byte(r.U64())
					if r.One(2) {
						c.Bytes[i] = "\n\t, #-{}0:"[r.N(10)]
					}
				}
				if n == 0 {
					c.Bytes = nil
					c.DB.Dmg = []Dmg{{K: "trunc"}}
				}
			case 1, 2, 3: // undamaged apart from the metadata
				if c.DB.Kind == ".scan" || c.DB.Kind == ".memip" {
					c.DB.Dmg = genDmgText(r, c.DB)
				}
			default:
				c.DB.Dmg = genDmg(r, size, 4)
			}
			m := newModel(c.DB.DS)
			for _, ip := range m.probes(r, 8) {
				c.IPs = append(c.IPs, Op{r.S("q", "q4", "s", "u", "l", "l2", "n", "m", "o", "w"), ip.String()})
			}
			c.IPs = append(c.IPs, Op{K: "v"}, Op{K: "c4"}, Op{K: "c6"})
			if r.One(2) {
				c.Ops = r.In(1, 5)
			}
			if r.One(2) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c06)
			if c.DB == nil || !c.DB.DS.valid() || newModel(c.DB.DS).over {
				return invalid("db")
			}
			if c.DB.Kind == ".awdb" && (c.DB.DS.V == 3 || (c.DB.Aw.Rec != 24 && c.DB.Aw.Rec != 28 && c.DB.Aw.Rec != 32)) {
				return invalid("awdb")
			}
			for _, r := range c.DB.DS.R {
				if p, _ := parsePfx(r.C); p.v6 && p.bits == 0 {
					return invalid("v6 default route")
				}
			}
			rt.SetMapSeed(c.Map)
			b := c.DB.bytes()
			if len(c.Bytes) > 0 {
				b = c.Bytes
			}
			x.Nontrivial = len(c.Bytes) > 0 || len(c.DB.Dmg) > 0 || len(c.DB.Ip.Meta) > 0 || len(c.DB.Ip.Links) > 0 || len(c.DB.Aw.Links) > 0 || c.DB.Aw.Raw != nil || c.DB.Aw.MRaw != nil || c.DB.Aw.Nodes != nil || c.DB.Aw.RecSz != nil || c.DB.Aw.Ver != nil
			name := "/w/f" + c.DB.Kind
			fs := simos.New()
			fs.Put(name, b)
			simos.Mount(fs)
			// opening
			var db *opened
			var err error
			o := rt.Do(dumpBudget, func() {
				if c.File {
					var q *query.Db
					if q, err = query.NewDb(name); err == nil {
						db = &opened{db: q}
						if q == nil {
							err = fmt.Errorf("neither a database nor an error")
							panic(err)
						}
					}
					return
				}
				db, err = c.DB.open(exact(b))
			})
			if v := outVerdict(o, "opening"); v != nil {
				return v
			}
			if err == nil {
				Probe("opened")
				for _, op := range c.IPs {
					var s string
					o := rt.Do(dumpBudget, func() { s = db.do(op) })
					if v := outVerdict(o, fmt.Sprintf("lookup %v", op)); v != nil {
						return v
					}
					if s == "nil /0" {
						return bad("empty", "lookup %v returned neither a record nor an error", op)
					}
				}
			} else {
				Probe("open refused")
			}
			// dumping
			var d *inf.IpData
			budget := dumpBudget
			if len(c.DB.Aw.Top) > 0 { // records may unfold into very many values, but not without end
				budget += (1<<19 + 256*len(b)) * 300
			}
			o = rt.Do(budget, func() { d, err = convert.DumpFile(name, c.Rule, nil) })
			if v := outVerdict(o, "dumping"); v != nil {
				return v
			}
			if err != nil {
				Probe("dump refused")
				return nil
			}
			Probe("dumped")
			if v := wellFormed(d); v != nil {
				return v
			}
			all := allOps()
			if c.Ops > 0 {
				o = rt.Do(dumpBudget, func() {
					for i := 0; i < c.Ops && i < len(all); i++ {
						all[i](d)
					}
				})
				if v := outVerdict(o, "operations on what was dumped"); v != nil {
					return v
				}
			}
			for _, k := range []string{".scan", ".memip", ".ipdb"} {
				o = rt.Do(dumpBudget, func() { _, _ = convert.PackBytes(k, d) })
				if v := outVerdict(o, "packing what was dumped to "+k); v != nil {
					return v
				}
			}
			return nil
		},
	})
}

func allOps() []operate.Operate {
	return append(append([]operate.Operate{}, operate.DefaultOperates...), operate.AttachDistrict)
}

// exact copies b to where nothing follows it.
func exact(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(b):len(b)]
}

// wellFormed: a dataset has its parts.
func wellFormed(d *inf.IpData) *Verdict {
	if d == nil {
		return bad("empty", "neither a dataset nor an error")
	}
	if d.Version == nil {
		return bad("malformed", "dataset without version information")
	}
	for i, r := range d.Ips {
		if r.Cidr == nil {
			return bad("malformed", "row %d has no network", i)
		}
		if _, ok := pfxOf(r.Cidr); !ok {
			return bad("malformed", "row %d has a malformed network %v", i, showNet(r.Cidr))
		}
		if len(r.FieldValues) != len(d.Fields) {
			return bad("malformed", "row %d (%v) has %d values for the %d fields %q", i, r.Cidr, len(r.FieldValues), len(d.Fields), d.Fields)
		}
	}
	return nil
}

func showNet(n *net.IPNet) string {
	if n == nil {
		return "nil"
	}
	b, _ := json.Marshal([][]byte{n.IP, n.Mask})
	return n.String() + " " + string(b)
}
