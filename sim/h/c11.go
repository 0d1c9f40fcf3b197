//go:build go1.25

package h

import (
	"fmt"
	"io/fs"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// C11: unreadable input surfaces as an error.
type c11 struct {
	DB     *DB            `json:"db"`
	Dump   bool           `json:"dump,omitempty"` // dump the file instead of opening it
	Rule   string         `json:"rule,omitempty"`
	Place  string         `json:"place,omitempty"` // missing dir link broken loop noperm ext file ("" : an ordinary file)
	Faults []*simos.Fault `json:"faults,omitempty"`
	Chunk  int            `json:"chunk,omitempty"`
	Long   int            `json:"long,omitempty"` // a text row is made that long
	Bad    *Dmg           `json:"bad,omitempty"`  // a line no reader can make sense of
	IPs    []Op           `json:"ops,omitempty"`
	Map    uint64         `json:"map,omitempty"`
}

// badLines cannot be taken for a row of either text format.
var badLines = []string{"garbage", "1.2.3.0/24", "1.2.3.0/33\ta", "1.2.3/24\tx,y", "\t", "1 2", "1 2 a-b", "0 x a-b-c-d-e-f", "z 5 a-b-c-d-e-f", "4294967296 4294967297 a-b-c-d-e-f", "x:y ::1 a-b-c-d-e-f", " ", "", ""}

func genReadFaults(r *Rand, size int) []*simos.Fault {
	var out []*simos.Fault
	n := r.In(0, 2)
	for i := 0; i < n; i++ {
		f := &simos.Fault{Op: r.S("open", "read", "read", "read"), N: 1, Stick: r.One(3), Err: r.S("EIO", "EACCES", "EMFILE", "EINTR", "ENOMEM", "ENOENT")}
		if f.Op == "read" {
			f.N = r.I(1, 1, 2, 2, 3, 4, r.In(1, 12))
			f.Err = r.S("EIO", "EIO", "EINTR", "EISDIR", "ENOMEM")
			if r.One(4) {
				f.Err, f.Part = "", r.In(1, size+1)
			}
		}
		out = append(out, f)
	}
	return out
}

// canonData renders a dataset completely.
func canonData(d *inf.IpData, mask func(*inf.VersionInfo)) string {
	if d == nil {
		return "nil"
	}
	var sb strings.Builder
	v := "nil"
	if d.Version != nil {
		c := *d.Version
		if mask != nil {
			mask(&c)
		}
		v = showVersion(&c)
	}
	fmt.Fprintf(&sb, "version %s\nfields %q\n", v, d.Fields)
	for _, r := range d.Ips {
		fmt.Fprintf(&sb, "%v %q\n", r.Cidr, r.FieldValues)
	}
	return sb.String()
}

// diffAt shows where two renderings part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := strings.LastIndexByte(a[:i], '\n') + 1
	return fmt.Sprintf("%q instead of %q", clip(a[j:], 300), clip(b[j:], 300))
}

func init() {
	register(&Prop{
		ID: "C11",
		Rule: "a case is a file of one of the four formats and a pattern of failures of opening and reading it (missing, directory, link, permissions, errors at any read, short reads, unprocessable lines); it is opened or dumped, then again with the failures gone; " +
			"non-trivial if a failure was reported or a read came short",
		Real: []string{"db/query (NewDb)", "db/convert (DumpFile)", "db/format/*", "db/field/export"},
		Stub: []string{"file system (in memory, faults injected)", "clock", "map iteration order"},
		New:  func() any { return &c11{} },
		Gen: func(r *Rand, tier string) any {
			c := &c11{Dump: r.One(2)}
			o := dsOpt{full: r.One(2), special: r.One(4)}
			if o.full {
				o.splits = r.In(1, 3)
			}
			if c.Dump {
				c.Rule = rules[r.N(len(rules))]
				o.full, o.splits = true, r.In(1, 3)
				if r.One(2) {
					c.DB = genTextDB(r, r.S(".scan", ".memip"), o)
				} else {
					o.bulk, o.big = r.One(60), !c.Dump && r.One(400)
					c.DB = genDB(r, o)
				}
			} else {
				c.DB = genDB(r, o)
			}
			if c.Dump && c.DB.DS.V == 3 {
				c.DB.DS.V = 1
				c.DB.DS.R = v4Rows(c.DB.DS.R)
			}
			text := c.DB.Kind == ".scan" || c.DB.Kind == ".memip"
			if text && r.One(4) {
				c.Long = r.I(60000, 65400, 65500, 65530, 65536, 70000, 200000)
			}
			huge := text && r.One(800)
			if huge { // larger than any cap on the size of a file should be
				c.Long = r.I(9000000, 17000000, 34000000, 68000000)
			}
			if text && r.One(4) {
				c.Bad = &Dmg{K: "line", O: r.N(len(c.DB.DS.R) + 4), S: badLines[r.N(len(badLines))]}
				if c.DB.Kind == ".scan" && c.Bad.O < 3 {
					c.Bad.O = 3
				}
			}
			size := len(c.DB.bytes())
			if huge {
				size += c.Long
			}
			switch r.N(10) {
			case 0:
				c.Place = r.S("missing", "dir", "link", "broken", "loop", "noperm", "ext", "file")
			default:
				c.Faults = genReadFaults(r, size)
			}
			if r.One(2) {
				c.Chunk = r.I(1, 3, 7, 64, 511, 512, 1000, r.In(1, size+1))
				if c.Chunk < size/200 {
					c.Chunk = size/200 + 1
				}
			}
			for _, ip := range newModel(c.DB.DS).probes(r, 6) {
				c.IPs = append(c.IPs, Op{"q", ip.String()})
			}
			c.IPs = append(c.IPs, Op{K: "v"})
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c11)
			if c.DB == nil || !c.DB.valid() || (c.DB.Kind != ".ipdb" && c.DB.Kind != ".awdb" && !c.Dump) {
				return invalid("db")
			}
			for _, f := range c.Faults {
				if f == nil || f.N < 1 || (f.Op != "open" && f.Op != "read") || (f.Op == "open" && f.Err == "") {
					return invalid("faults")
				}
			}
			text := c.DB.Kind == ".scan" || c.DB.Kind == ".memip"
			d := *c.DB.DS
			if c.Long > 0 {
				if !text || len(d.R) == 0 || c.Long > 100000000 {
					return invalid("long")
				}
				d.R = append([]Row(nil), d.R...)
				k := len(d.R) / 2
				v := cloneStrs(d.R[k].V)
				v[0] = strings.Repeat("w", c.Long)
				d.R[k].V = v
			}
			db := *c.DB
			db.DS = &d
			rt.SetMapSeed(c.Map)
			b := db.bytes()
			if c.Bad != nil {
				if !text || c.Bad.K != "line" || (db.Kind == ".scan" && c.Bad.O < 3) || !isBadLine(c.Bad.S) {
					return invalid("bad line")
				}
				b = applyDmg(b, []Dmg{*c.Bad})
			}
			fsys := simos.New()
			ext := db.Kind
			if c.Place == "ext" {
				ext = ".nosuch"
			}
			name, real := "/w/f"+ext, "/w/f"+ext
			readable := true
			switch c.Place {
			case "", "ext":
				fsys.Put(name, b)
			case "missing":
				readable = false
			case "dir":
				fsys.Mkdir(name)
				readable = false
			case "link":
				real = "/w/real"
				fsys.Put(real, b)
				fsys.Link(name, real)
			case "broken":
				fsys.Link(name, "/w/none")
				readable = false
			case "loop":
				fsys.Link(name, name)
				readable = false
			case "noperm":
				fsys.Put(name, b)
				fsys.SetMode(name, fs.FileMode(0))
				readable = false
			case "file": // a path below a file
				fsys.Put("/w/g", b)
				name, real = "/w/g/f"+ext, "/w/g/f"+ext
				readable = false
			default:
				return invalid("place")
			}
			simos.Mount(fsys)
			attempt := func() (string, error, *Verdict) {
				var s string
				var err error
				o := rt.Do(dumpBudget, func() {
					if c.Dump {
						var data *inf.IpData
						data, err = convert.DumpFile(name, c.Rule, nil)
						if err == nil {
							s = canonData(data, maskMemip(db.Kind))
						}
						return
					}
					var q *query.Db
					q, err = query.NewDb(name)
					if err == nil {
						if q == nil {
							s = "nil"
							return
						}
						s = answers(&opened{db: q}, c.IPs)
					}
				})
				return s, err, outVerdict(o, "reading the file")
			}
			fsys.Faults, fsys.Chunk = c.Faults, c.Chunk
			got, err, v := attempt()
			if v != nil {
				return v
			}
			failed, whole := fsys.AnyFailed(), fsys.Whole(name)
			short := simos.Fired["short-read"] > 0
			fsys.Faults, fsys.Chunk = nil, 0
			x.Nontrivial = failed || c.Chunk > 0 || short && len(c.Faults) > 0
			if err == nil && (!readable || (failed && !whole)) {
				return bad("acknowledged", "reading a file that could not be read to its end (%s) succeeded: %s", strings.Join(fsys.Log, "; "), clip(got, 500))
			}
			// the same with healthy input
			want, werr, v := attempt()
			if v != nil {
				return v
			}
			if !readable {
				if werr == nil {
					return bad("acknowledged", "reading a file that is not there or not readable (%s) succeeded: %s", c.Place, clip(want, 500))
				}
				return nil
			}
			if err == nil {
				if werr != nil {
					return bad("retry", "reading succeeded amid failures, but later fails: %v", werr)
				}
				if got != want {
					return bad("partial", "reading amid failures or in pieces gave %s (the whole file)", diffAt(got, want))
				}
			} else if !failed && werr == nil {
				return bad("spurious", "reading failed without any failure of the input: %v", err)
			}
			// what the file holds
			if c.Place == "ext" {
				if werr == nil {
					return bad("format", "a file of unknown format was accepted")
				}
				return nil
			}
			if c.Bad != nil {
				Probe("unprocessable line")
				if werr == nil && c.Bad.S == "" {
					// an empty line may be passed over, but not what follows it
					fsys.Put(real, db.bytes())
					whole, err, v := attempt()
					if v != nil {
						return v
					}
					if err != nil || want != whole {
						return bad("partial", "with an empty line before line %d reading the source gives %s (without the empty line)", c.Bad.O, diffAt(want, whole))
					}
					return nil
				}
				if werr == nil {
					return bad("skipped", "a source with the unprocessable line %q (before line %d) was accepted: %s", c.Bad.S, c.Bad.O, clip(want, 500))
				}
				return nil
			}
			if werr != nil {
				return bad("refused", "a healthy file was refused: %v", werr)
			}
			if !c.Dump {
				o, err := db.open(append([]byte(nil), b...))
				if err != nil {
					return bad("differs", "the file opens, its bytes do not: %v", err)
				}
				if s := answers(o, c.IPs); s != want {
					return bad("differs", "the file gives %s (its bytes)", diffAt(want, s))
				}
				return nil
			}
			if text && c.DB.Open { // the same rows as with a last line end
				ends := db
				ends.Open = false
				fsys.Put(real, ends.bytes())
				whole, err, v := attempt()
				if v != nil {
					return v
				}
				if err != nil || want != whole {
					return bad("partial", "without the line end of the last row reading the source gives %s (with it; error %v)", diffAt(want, whole), err)
				}
			}
			if text {
				rows := len(d.R)
				if n := strings.Count(want, "\n") - 2; n < rows && db.Kind == ".scan" {
					return bad("partial", "%d of %d rows were read", n, rows)
				}
				if c.Long > 0 && !strings.Contains(want, strings.Repeat("w", c.Long)) && fieldKept(c.Rule, d.F[0]) {
					return bad("partial", "the long value is missing")
				}
			}
			return nil
		},
	})
}

func fieldKept(rule, f string) bool { return rule == "" }

func isBadLine(s string) bool {
	for _, l := range badLines {
		if l == s {
			return true
		}
	}
	return false
}

func v4Rows(rs []Row) []Row {
	var out []Row
	for _, r := range rs {
		if p, ok := parsePfx(r.C); ok && !p.v6 {
			out = append(out, r)
		}
	}
	return out
}

// maskMemip hides the version of a format that has none of its own.
func maskMemip(kind string) func(*inf.VersionInfo) {
	if kind != ".memip" {
		return nil
	}
	return func(v *inf.VersionInfo) { v.Build, v.Version = 0, "" }
}

func answers(o *opened, ops []Op) string {
	var sb strings.Builder
	for _, op := range ops {
		fmt.Fprintf(&sb, "%v: %s\n", op, o.do(op))
	}
	return sb.String()
}
