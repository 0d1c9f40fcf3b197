//go:build go1.25

package h

import (
	"encoding/json"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// step of a history of packs to one path.
type step struct {
	DS     *DS            `json:"ds"`
	Spoil  string         `json:"spoil,omitempty"` // makes the dataset one that cannot be represented
	At     int            `json:"at,omitempty"`
	Faults []*simos.Fault `json:"faults,omitempty"`
	Bytes  bool           `json:"bytes,omitempty"` // pack to bytes, open those
	Clock  int64          `json:"clock,omitempty"` // minutes
	Keep   bool           `json:"keep,omitempty"`  // the process goes on, it is not restarted
}

var spoils = []string{"overlap", "inside", "same", "again", "long", "ragged", "ragged2", "nofields", "mask", "tab", "v6zero", "around"}

// spoil changes the dataset handed to the packer; the result cannot be represented.
func (s *step) spoil(d *inf.IpData) bool {
	n := len(d.Ips)
	if n == 0 && s.Spoil != "nofields" && s.Spoil != "v6zero" {
		return false
	}
	k := 0
	if n > 0 {
		k = s.At % n
	}
	put := func(at int, r inf.IpRaw) {
		at %= n + 1
		d.Ips = append(d.Ips[:at], append([]inf.IpRaw{r}, d.Ips[at:]...)...)
	}
	other := func() []string {
		v := cloneStrs(d.Ips[k].FieldValues)
		v[0] += "'"
		return v
	}
	half := func(more int) *net.IPNet {
		p, _ := pfxOf(d.Ips[k].Cidr)
		if p.bits+more < 1 || p.bits+more > width(p.v6) {
			return nil
		}
		p.bits += more
		p.a = p.lo()
		if p.v6 && p.bits <= 96 && p.has(A{0, 0xffff00000000}) {
			return nil
		}
		return p.ipNet(false)
	}
	switch s.Spoil {
	case "overlap": // a larger network around it
		c := half(-1)
		if c == nil {
			return false
		}
		put(s.At/7, inf.IpRaw{Cidr: c, FieldValues: other()})
	case "around":
		c := half(-1 - s.At%5)
		if c == nil {
			return false
		}
		put(s.At/7, inf.IpRaw{Cidr: c, FieldValues: other()})
	case "inside":
		c := half(1 + s.At%5)
		if c == nil {
			return false
		}
		put(s.At/7, inf.IpRaw{Cidr: c, FieldValues: other()})
	case "same": // the same network twice, with other values
		p, _ := pfxOf(d.Ips[k].Cidr)
		put(s.At/7, inf.IpRaw{Cidr: p.ipNet(false), FieldValues: other()})
	case "again": // in the other form
		p, _ := pfxOf(d.Ips[k].Cidr)
		put(s.At/7, inf.IpRaw{Cidr: p.ipNet(len(d.Ips[k].Cidr.IP) == 4), FieldValues: other()})
	case "long":
		v := cloneStrs(d.Ips[k].FieldValues)
		v[s.At%len(v)] = strings.Repeat("x", []int{65536, 65537, 70000, 131072, 131072 + 10}[s.At%5])
		d.Ips[k].FieldValues = v
	case "ragged":
		d.Ips[k].FieldValues = append(cloneStrs(d.Ips[k].FieldValues), "surplus")
	case "ragged2":
		v := cloneStrs(d.Ips[k].FieldValues)
		d.Ips[k].FieldValues = v[:len(v)-1]
	case "nofields":
		d.Fields = nil
	case "mask":
		c := *d.Ips[k].Cidr
		c.Mask = append(net.IPMask(nil), c.Mask...)
		c.Mask[len(c.Mask)-1] ^= 2
		c.Mask[len(c.Mask)-2] ^= 4
		if ones, bits := c.Mask.Size(); ones != 0 || bits != 0 {
			return false
		}
		d.Ips[k].Cidr = &c
	case "tab":
		v := cloneStrs(d.Ips[k].FieldValues)
		v[s.At%len(v)] += "\tx"
		d.Ips[k].FieldValues = v
	case "v6zero":
		if d.Version.IpType&2 == 0 {
			return false
		}
		d.Ips = []inf.IpRaw{{Cidr: &net.IPNet{IP: make(net.IP, 16), Mask: make(net.IPMask, 16)}, FieldValues: make([]string, len(d.Fields))}}
	default:
		return false
	}
	return true
}

// twin is a dataset of the same shape and size with other values.
func twin(r *Rand, d *DS) *DS {
	b, _ := json.Marshal(d)
	t := &DS{}
	if json.Unmarshal(b, t) != nil {
		return d
	}
	for n := r.I(1, 2, 5, 100); n > 0 && len(t.R) > 0; n-- {
		v := t.R[r.N(len(t.R))].V
		if len(v) == 0 {
			continue
		}
		k := r.N(len(v))
		if b := []byte(v[k]); len(b) > 0 && b[len(b)-1] >= 'a' && b[len(b)-1] < 'z' || len(b) > 0 && b[len(b)-1] >= '0' && b[len(b)-1] < '9' {
			b[len(b)-1]++
			v[k] = string(b)
		}
	}
	return t
}

// C04: an acknowledged database file answers exactly its dataset.
type c04 struct {
	Steps []*step  `json:"steps"`
	IPs   []string `json:"ips"`
	Map   uint64   `json:"map,omitempty"`
}

// checkAnswers asks the opened database for every address, in all forms.
func checkAnswers(q *query.Db, d *DS, m *Model, ips []net.IP) *Verdict {
	db := &DB{Kind: ".ipdb", DS: d}
	for _, ip := range ips {
		for _, k := range []string{"q", "s", "u"} {
			op := Op{k, ip.String()}
			var s string
			o := rt.Do(openBudget, func() { s = (&opened{db: q}).do(op) })
			if v := outVerdict(o, fmt.Sprintf("lookup %v", op)); v != nil {
				return v
			}
			if v := db.checkOp(m, op, s); v != nil {
				return v
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C04",
		Rule: "a case is a history of 1-6 packs to one path (or to bytes) of datasets of different sizes, families and fields, with output faults and unrepresentable datasets among them; after every step the file is reopened, by a fresh process or by the same one, and asked for addresses in and around all networks; " +
			"non-trivial if there were two steps or more, or a fault fired, or a dataset was unrepresentable",
		Real: []string{"db/convert (PackFile, PackBytes)", "db/format/ipdb (packer, writer, reader, querier)", "db/query", "ipnet"},
		Stub: []string{"file system (in memory, faults injected)", "process restarts (package state reset)", "clock", "map iteration order"},
		New:  func() any { return &c04{} },
		Gen: func(r *Rand, tier string) any {
			c := &c04{}
			n := r.I(1, 1, 2, 2, 3, 4, 6)
			for i := 0; i < n; i++ {
				s := &step{DS: genPackDS(r, ".ipdb", tier), Clock: int64(r.N(1 << 20))}
				if r.One(500) {
					s.DS = genBig(r, dsOpt{})
				}
				if r.One(25) {
					s.DS.bulk(r, false)
				}
				if r.One(4000) && s.DS.Fat == 0 { // offsets of more than three bytes
					s.DS = genFat(r)
				}
				if i > 0 && r.One(4) {
					s.DS = c.Steps[r.N(i)].DS
				} else if i > 0 && r.One(4) {
					s.DS = twin(r, c.Steps[r.N(i)].DS)
				}
				if i > 0 && r.One(2) {
					s.Clock = c.Steps[i-1].Clock
				}
				s.Keep = r.One(3)
				switch r.N(5) {
				case 0:
					s.Spoil = spoils[r.N(len(spoils))]
					s.At = r.N(1 << 16)
				case 1, 2:
					s.Faults = genWriteFaults(r, 3000)
				}
				s.Bytes = r.One(6)
				c.Steps = append(c.Steps, s)
				for _, ip := range newModel(s.DS).probes(r, 25) {
					c.IPs = append(c.IPs, ip.String())
				}
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c04)
			if len(c.Steps) == 0 {
				return invalid("no steps")
			}
			var ips []net.IP
			for _, s := range c.IPs {
				if ip := net.ParseIP(s); ip != nil {
					ips = append(ips, ip)
				}
			}
			rt.SetMapSeed(c.Map)
			fsys := simos.New()
			simos.Mount(fsys)
			const name = "/w/db.ipdb"
			var acked *DS // what the file was last acknowledged to hold
			var maybe *DS // the dataset of a later failed pack
			x.Nontrivial = len(c.Steps) > 1
			type held struct { // a database opened earlier by this process
				q  *query.Db
				ds *DS
			}
			var hold []held
			for i, s := range c.Steps {
				if s == nil || !packable(s.DS) || !validFaults(s.Faults) {
					return invalid("step")
				}
				d := s.DS.data()
				spoiled := false
				if s.Spoil != "" {
					if spoiled = s.spoil(d); spoiled {
						Probe("unrepresentable: " + s.Spoil)
						x.Nontrivial = true
					} else {
						d = s.DS.data()
					}
				}
				rt.SetClock(time.Unix(1700000000+s.Clock*60, 0), nil)
				var err error
				var out []byte
				fsys.ClearFailed()
				if !s.Bytes {
					fsys.Faults = s.Faults
				}
				o := rt.Do(dumpBudget, func() {
					if s.Bytes {
						out, err = convert.PackBytes(".ipdb", d)
						return
					}
					err = convert.PackFile(name, d)
				})
				fsys.Faults = nil
				if v := outVerdict(o, fmt.Sprintf("step %d: packing", i)); v != nil {
					return v
				}
				x.Nontrivial = x.Nontrivial || fsys.AnyFailed()
				if err == nil && spoiled {
					return bad("unrepresentable", "step %d: packing a dataset that cannot be represented (%s) was acknowledged", i, s.Spoil)
				}
				if err != nil && !spoiled && !fsys.Injected() {
					return bad("refused", "step %d: packing a valid dataset failed: %v", i, err)
				}
				if !s.Keep {
					resetAll() // another process
					hold = nil
				}
				for _, h := range hold {
					if v := checkAnswers(h.q, h.ds, newModel(h.ds), ips); v != nil {
						v.Msg = fmt.Sprintf("step %d: a database opened before: %s", i, v.Msg)
						return v
					}
				}
				fsys.ClearFailed()
				if s.Bytes {
					if err != nil {
						continue
					}
					var q *query.Db
					o := rt.Do(dumpBudget, func() { q, err = query.NewDbFromBytes(".ipdb", out) })
					if v := outVerdict(o, "opening"); v != nil {
						return v
					}
					if err != nil {
						return bad("lost", "step %d: the bytes of an acknowledged pack cannot be opened: %v", i, err)
					}
					if v := checkAnswers(q, s.DS, newModel(s.DS), ips); v != nil {
						v.Msg = fmt.Sprintf("step %d (bytes): %s", i, v.Msg)
						return v
					}
					continue
				}
				if err == nil {
					acked, maybe = s.DS, nil
				} else {
					maybe = s.DS
				}
				if acked == nil {
					continue // nothing was ever acknowledged; what is there is C05's business
				}
				var q *query.Db
				o = rt.Do(dumpBudget, func() { q, err = query.NewDb(name) })
				if v := outVerdict(o, "opening"); v != nil {
					return v
				}
				if err != nil {
					return bad("lost", "step %d: the file was acknowledged, but cannot be opened: %v (%s)", i, err, strings.Join(tail(fsys.Log, 20), "; "))
				}
				v := checkAnswers(q, acked, newModel(acked), ips)
				if v != nil && maybe != nil && checkAnswers(q, maybe, newModel(maybe), ips) == nil {
					acked, maybe, v = maybe, nil, nil // the failed pack took effect, completely
				}
				if v != nil {
					v.Msg = fmt.Sprintf("step %d: %s", i, v.Msg)
					return v
				}
				hold = append(hold, held{q, acked})
				if len(hold) > 2 {
					hold = hold[1:]
				}
			}
			return nil
		},
	})
}
