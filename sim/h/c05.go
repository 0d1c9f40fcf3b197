//go:build go1.25

package h

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// C05: a torn database file is never served.
type c05 struct {
	Old    *DS            `json:"old,omitempty"` // what the path holds at first
	New    *DS            `json:"new"`
	Third  *DS            `json:"third,omitempty"` // packed there by another process at the same time
	Mode   string         `json:"mode"`            // crash power live stream
	Packed bool           `json:"packed,omitempty"`
	Torn   int            `json:"torn,omitempty"` // bytes the old file lacks at its end: a writer in place died
	Link   bool           `json:"link,omitempty"`
	Faults []*simos.Fault `json:"faults,omitempty"`
	Parts  []int          `json:"parts,omitempty"` // bytes of a write that still reach the file, in per mille
	Cuts   []int          `json:"cuts,omitempty"`  // stream: bytes missing at the end
	Power  uint64         `json:"power,omitempty"`
	Crash  int            `json:"crash,omitempty"` // live: the writer dies there
	Chunk  int            `json:"chunk,omitempty"`
	WChunk int            `json:"wchunk,omitempty"`
	Reads  []int          `json:"reads,omitempty"`  // live: openings per reader
	After  []int          `json:"after,omitempty"`  // live: a reader starts after so many file operations
	HoldAt int            `json:"holdat,omitempty"` // live: readers wait before that read of a handle ...
	Hold   int            `json:"hold,omitempty"`   // ... until so many more file operations were made
	Sched  rt.Sched       `json:"sched"`
	IPs    []string       `json:"ips"`
	Map    uint64         `json:"map,omitempty"`
}

// served compares what an opening gave with the candidates.
func served(q *query.Db, cands []*DS, ips []net.IP) string {
	why := ""
	for _, d := range cands {
		if d == nil {
			continue
		}
		db := &DB{Kind: ".ipdb", DS: d}
		m := newModel(d)
		miss := ""
		for _, ip := range ips {
			op := Op{"q", ip.String()}
			if v := db.checkOp(m, op, (&opened{db: q}).do(op)); v != nil {
				miss = v.Msg
				break
			}
		}
		if miss == "" {
			v := q.VersionInfo()
			if int(v.IpType) != d.V || (d.Label != "" && v.Version != d.Label) || strings.Join(v.ExtraInfo, "|") != strings.Join(d.Extra, "|") {
				miss = "version " + showVersion(v)
			}
		}
		if miss == "" {
			return ""
		}
		why += miss + "\n"
	}
	if why == "" {
		why = "no dataset was ever packed there completely"
	}
	return why
}

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "a case is an old file (or none), a new dataset packed over it, and either every crash point of the packing process (before each file operation and inside each write; with or without loss of unsynced data; PackFile, or PackWriter to a file opened by the caller), each image opened and then packed over again, or concurrent readers that open the path in pieces while one or two processes pack there, under a schedule; " +
			"non-trivial if an image differed from both complete files, or the interleaving switched",
		Real: []string{"db/convert (PackFile)", "db/format/ipdb (packer, writer, reader, querier)", "db/query (NewDb)"},
		Stub: []string{"file system (in memory; crash images, torn and unsynced writes, reads and writes in pieces)", "goroutine scheduler", "clock", "map iteration order"},
		New:  func() any { return &c05{} },
		Gen: func(r *Rand, tier string) any {
			c := &c05{Mode: r.S("crash", "crash", "power", "live", "live", "stream"), Link: r.One(8)}
			o := dsOpt{special: r.One(5), splits: r.In(1, 6)}
			c.New = genDS(r, o)
			if !r.One(5) {
				if r.One(3) { // of the same size: every record another
					old := *c.New
					nw := *c.New
					old.R, nw.R = nil, nil
					for i, x := range c.New.R {
						a, b := cloneStrs(x.V), cloneStrs(x.V)
						a[0], b[0] = fmt.Sprintf("%sA%02d", a[0], i%100), fmt.Sprintf("%sB%02d", b[0], i%100)
						old.R, nw.R = append(old.R, Row{x.C, a}), append(nw.R, Row{x.C, b})
					}
					c.Old, c.New = &old, &nw
				} else if r.One(2) { // of the same shape: the values of the rows exchanged
					old := *c.New
					old.R = append([]Row(nil), old.R...)
					n := len(old.R)
					k := r.N(n + 1)
					for i := range old.R {
						old.R[i] = Row{c.New.R[i].C, c.New.R[(i+k)%n].V}
					}
					c.Old = &old
				} else {
					c.Old = genDS(r, o)
				}
				if r.One(2) { // the files differ in their description
					old := *c.Old
					switch r.N(3) {
					case 0:
						old.Label = r.S("", "a", "older", old.Label+"0")
					case 1:
						old.Extra = append(append([]string(nil), old.Extra...), "older")
					default:
						k := r.N(len(old.F))
						old.F = append(append([]string(nil), old.F[k:]...), old.F[:k]...)
					}
					c.Old = &old
				}
			}
			c.Packed = r.N(3) > 0
			if c.Mode == "live" {
				c.Chunk = r.I(0, 50, 100, 300, 1000, r.In(20, 2000))
				c.WChunk = r.I(0, 0, 50, 100, 300, 1000, r.In(20, 2000))
				n := r.In(1, 3)
				for i := 0; i < n; i++ {
					c.Reads = append(c.Reads, r.In(1, 3))
					c.After = append(c.After, r.I(0, 0, 1, 1, 2, 3, 4))
				}
				if r.N(3) > 0 {
					c.HoldAt, c.Hold = r.In(1, 3), r.I(1, 2, 3, 4, 5, 8)
					c.Chunk = r.I(100, 200, 300, r.In(20, 1000))
				}
				c.Sched = genSched(r)
				if c.Sched.Kind == "pct" {
					c.Sched.Est = 1500
				}
				if r.One(4) {
					c.Third = genDS(r, o)
				}
				if r.One(4) {
					c.Crash = r.In(1, 8)
				}
				if r.One(4) {
					c.Faults = genWriteFaults(r, 3000)
				}
			} else {
				for i := 0; i < 3; i++ {
					c.Parts = append(c.Parts, r.In(0, 1000))
				}
				if c.Mode == "stream" {
					for i := r.In(1, 6); i > 0; i-- {
						c.Cuts = append(c.Cuts, r.I(1, 2, 8, 9, 16, 100, r.In(1, 60), r.In(1, 400), r.In(1, 4000)))
					}
				}
				if r.One(5) {
					c.Faults = genWriteFaults(r, 3000)
				}
			}
			if c.Old != nil && c.Mode != "stream" && r.One(4) {
				c.Torn = r.I(1, 2, 8, 16, r.In(1, 60), r.In(1, 400), r.In(1, 4000))
			}
			c.Power = r.U64()
			for _, d := range []*DS{c.New, c.Old, c.Third} {
				if d != nil {
					for _, ip := range newModel(d).probes(r, 14) {
						c.IPs = append(c.IPs, ip.String())
					}
				}
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c05)
			for _, d := range []*DS{c.New, c.Old, c.Third} {
				if d != nil && !packable(d) {
					return invalid("dataset")
				}
			}
			if c.New == nil || !validFaults(c.Faults) {
				return invalid("case")
			}
			for _, n := range c.Cuts {
				if n < 1 {
					return invalid("cuts")
				}
			}
			for _, p := range c.Parts {
				if p < 0 || p > 1000 {
					return invalid("parts")
				}
			}
			var ips []net.IP
			for _, s := range c.IPs {
				if ip := net.ParseIP(s); ip != nil {
					ips = append(ips, ip)
				}
			}
			rt.SetMapSeed(c.Map)
			const name = "/w/db.ipdb"
			start := simos.New()
			if c.Link {
				start.Link(name, "/w/real.ipdb")
			}
			real := name
			if c.Link {
				real = "/w/real.ipdb"
			}
			var oldb []byte
			if c.Old != nil {
				oldb = writeIpdb(c.Old, IpdbOpt{})
				if c.Packed { // by an earlier pack
					b, err := convert.PackBytes(".ipdb", c.Old.data())
					if err != nil {
						return bad("refused", "packing a valid dataset failed: %v", err)
					}
					oldb = b
				}
				if c.Torn < 0 {
					return invalid("torn")
				}
				if c.Torn > 0 {
					oldb = oldb[:max(0, len(oldb)-c.Torn)]
					served := *c
					served.Old = nil
					c = &served
				}
				start.Put(real, oldb)
			}
			if c.Mode == "live" {
				return c.live(x, start, ips)
			}
			// the undisturbed run tells the crash points and their sizes
			pack := func(f *simos.FS, d *DS) (error, *Verdict) {
				simos.Mount(f)
				var err error
				data := d.data()
				o := rt.Do(dumpBudget, func() {
					if c.Mode == "stream" {
						err = stream(name, data)
						return
					}
					err = convert.PackFile(name, data)
				})
				if o.Killed {
					return fmt.Errorf("killed"), nil
				}
				return err, outVerdict(o, "packing")
			}
			open := func(f *simos.FS, what string, cands ...*DS) *Verdict {
				simos.Mount(f)
				var q *query.Db
				var err error
				why := ""
				o := rt.Do(dumpBudget, func() {
					if q, err = query.NewDb(name); err == nil {
						why = served(q, cands, ips)
					}
				})
				if v := outVerdict(o, "opening after "+what); v != nil {
					return v
				}
				if err != nil {
					Probe("image refused")
					return nil
				}
				if why != "" {
					return bad("torn", "after %s the file is served, but answers neither like the new nor like the old dataset: %s", what, why)
				}
				Probe("image served")
				return nil
			}
			undisturbed := start.Clone()
			undisturbed.Faults = c.Faults
			perr, v := pack(undisturbed, c.New)
			if v != nil {
				return v
			}
			newb, _ := undisturbed.Get(name)
			if c.Mode == "stream" { // how much of the file is there is what matters
				for _, n := range c.Cuts {
					n = len(newb) - n
					if n < 0 {
						continue
					}
					img := start.Clone()
					img.Put(real, newb[:n])
					x.Eval(1)
					x.Nontrivial = true
					resetAll()
					if v := open(img, fmt.Sprintf("writing %d of %d bytes", n, len(newb)), c.New); v != nil {
						return v
					}
					// over a longer file, which is cut to its size at the end
					if head := headLen(newb); perr == nil && n >= head && len(oldb) > len(newb) {
						img := start.Clone()
						img.Put(real, append(append([]byte(nil), newb[:n]...), oldb[n:]...))
						x.Eval(1)
						resetAll()
						if v := open(img, fmt.Sprintf("writing %d of %d bytes over a file of %d", n, len(newb), len(oldb)), c.New); v != nil {
							return v
						}
						Probe("written over a longer file")
					}
				}
			}
			muts := undisturbed.Muts()
			if v := open(undisturbed, "a run without crash", c.New, c.Old); v != nil {
				return v
			}
			for at := 1; at <= muts; at++ {
				parts := append([]int{0, 1000}, c.Parts...)
				for k, p := range parts {
					f := start.Clone()
					for _, y := range c.Faults {
						z := *y
						f.Faults = append(f.Faults, &z)
					}
					f.Crash = &simos.Crash{At: at, PerMille: p}
					_, v := pack(f, c.New)
					if v != nil {
						return v
					}
					x.Eval(1)
					torn := f.CrashedIn() == "write"
					resetAll()
					img := f.Clone()
					what := fmt.Sprintf("a crash at operation %d (%s, %d per mille of it)", at, f.CrashedIn(), p)
					if c.Mode == "power" {
						img.PowerLoss(c.Power + uint64(at*16+k))
						what += " and loss of power"
					}
					if b, ok := img.Get(name); ok && string(b) != string(newb) && string(b) != string(oldb) {
						x.Nontrivial = true
					}
					if v := open(img, what, c.New, c.Old); v != nil {
						return v
					}
					// life goes on: packing again must succeed and take effect
					if k == int(c.Power%5) {
						resetAll()
						err, v := pack(img, c.New)
						if v != nil {
							return v
						}
						if err != nil {
							return bad("stuck", "after %s packing again fails: %v (files %q)", what, err, img.Names())
						}
						if v := open(img, "packing again after "+what, c.New); v != nil {
							return v
						}
						simos.Mount(img)
						if _, err := query.NewDb(name); err != nil {
							return bad("stuck", "after %s packing again succeeded, but the file cannot be opened: %v", what, err)
						}
					}
					if !torn {
						break
					}
				}
			}
			return nil
		},
	})
}

// live: readers open the path while it is being written.
func (c *c05) live(x *Ctx, start *simos.FS, ips []net.IP) *Verdict {
	const name = "/w/db.ipdb"
	f := start
	f.Chunk, f.WChunk, f.Faults = c.Chunk, c.WChunk, c.Faults
	if f.Chunk > 0 && f.Chunk < 20 || f.WChunk > 0 && f.WChunk < 20 {
		return invalid("chunk")
	}
	if c.Crash > 0 {
		f.Crash = &simos.Crash{At: c.Crash, PerMille: 500}
	}
	simos.Mount(f)
	cands := []*DS{c.New, c.Old, c.Third}
	datas := []*DS{c.New}
	if c.Third != nil {
		datas = append(datas, c.Third)
	}
	var tasks []rt.Task
	packing := len(datas)
	for _, d := range datas {
		data := d.data()
		tasks = append(tasks, rt.Task{Proc: &rt.Proc{}, F: func() {
			defer func() { packing-- }()
			_ = convert.PackFile(name, data)
		}})
	}
	if c.Hold > 0 {
		f.OnRead = func(n int) {
			if n == c.HoldAt {
				at := f.Muts() + c.Hold
				rt.Block(func() bool { return f.Muts() >= at || packing == 0 })
			}
		}
	}
	whys := make([]string, len(c.Reads))
	readers := &rt.Proc{}
	for i, n := range c.Reads {
		tasks = append(tasks, rt.Task{Proc: readers, F: func() {
			if i < len(c.After) && c.After[i] > 0 {
				rt.Block(func() bool { return f.Muts() >= c.After[i] || packing == 0 })
			}
			for k := 0; k < n; k++ {
				q, err := query.NewDb(name)
				if err != nil {
					Probe("open refused meanwhile")
					continue
				}
				Probe("served meanwhile")
				if w := served(q, cands, ips); w != "" && whys[i] == "" {
					whys[i] = w
				}
			}
		}})
	}
	res := rt.Run(c.Sched, dumpBudget, nil, tasks...)
	x.Segs = res.Segs
	x.Extra = rt.SchedHash
	x.Nontrivial = rt.Multi && len(res.Segs) > len(tasks)
	if v := verdictOf(res, "packing and opening at once"); v != nil {
		return v
	}
	for i, w := range whys {
		if w != "" {
			return bad("torn", "reader %d opened the path while it was being written and was served something that is none of the datasets packed there: %s", i, w)
		}
	}
	// afterwards
	f.Faults, f.Crash, f.Chunk, f.OnRead = nil, nil, 0, nil
	resetAll()
	var err error
	why := ""
	o := rt.Do(dumpBudget, func() {
		var q *query.Db
		if q, err = query.NewDb(name); err == nil {
			why = served(q, cands, ips)
		}
	})
	if v := outVerdict(o, "opening afterwards"); v != nil {
		return v
	}
	if why != "" {
		return bad("torn", "after the writers ended the file is served, but answers like none of the datasets: %s", why)
	}
	return nil
}

// headLen is the number of bytes before the nodes.
func headLen(b []byte) int {
	if len(b) < 4 {
		return len(b)
	}
	return 4 + int(binary.BigEndian.Uint32(b))
}

// stream writes the database in place, as a caller with a file of its own does.
func stream(name string, data *inf.IpData) error {
	f, err := simos.Create(name)
	if err != nil {
		return err
	}
	err = convert.PackWriter(".ipdb", data, f)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
