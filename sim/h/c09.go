//go:build go1.25

package h

import (
	"fmt"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// Pack9 is one pack of a dataset.
type Pack9 struct {
	D      int            `json:"d,omitempty"` // which dataset
	Kind   string         `json:"kind"`        // "" only reads the dataset
	How    string         `json:"how,omitempty"`
	Path   int            `json:"path,omitempty"` // file: which one
	Faults []*simos.Fault `json:"faults,omitempty"`
}

// C09: packing leaves the dataset untouched, outputs are independent.
type c09 struct {
	DS     []*step        `json:"ds"` // datasets, some of which cannot be represented in ipdb
	Layout int            `json:"layout,omitempty"`
	Share  bool           `json:"share,omitempty"` // the datasets share fields and rows
	Room   bool           `json:"room,omitempty"`  // the datasets are the beginnings of longer ones
	Seq    []*Pack9       `json:"seq,omitempty"`
	Tasks  [][]*Pack9     `json:"tasks,omitempty"`
	Faults []*simos.Fault `json:"faults,omitempty"` // of the file system while the tasks run
	Sched  rt.Sched       `json:"sched"`
	Map    uint64         `json:"map,omitempty"`
}

func (p *Pack9) valid(n int) bool {
	if p == nil || p.D < 0 || p.D >= n || !validFaults(p.Faults) || p.Path < 0 {
		return false
	}
	switch p.Kind {
	case "", ".ipdb", ".scan", ".memip":
	default:
		return false
	}
	return p.How == "" || p.How == "bytes" || p.How == "writer" || p.How == "file"
}

func (p *Pack9) name() string { return fmt.Sprintf("/w/out%d%s", p.Path, p.Kind) }

// run packs; the text is the output with the recorded time masked.
func (p *Pack9) run(d *inf.IpData) (string, bool, error) {
	if p.Kind == "" {
		return canonData(d, nil), false, nil
	}
	switch p.How {
	case "writer":
		s := &Sink{Faults: p.Faults}
		err := convert.PackWriter(p.Kind, d, s)
		return maskBuild(p.Kind, s.B.Bytes()), s.Bad, err
	case "file":
		err := convert.PackFile(p.name(), d)
		return "", false, err
	}
	b, err := convert.PackBytes(p.Kind, d)
	return maskBuild(p.Kind, b), false, err
}

// roomy gives every list of the dataset room behind its end, where a longer
// dataset, which is returned, has more of its own.
func roomy(d *inf.IpData) *inf.IpData {
	more := func(l *[]string) []string {
		n := len(*l)
		all := append(append(make([]string, 0, n+2), *l...), "more", "even more")
		if *l != nil {
			*l = all[:n]
		}
		return all
	}
	v := *d.Version
	v.Languages = more(&d.Version.Languages)
	v.ExtraInfo = more(&d.Version.ExtraInfo)
	l := &inf.IpData{Version: &v}
	l.Fields = more(&d.Fields)
	n := len(d.Ips)
	rows := make([]inf.IpRaw, n, n+2)
	long := make([]inf.IpRaw, n, n+2)
	for i, r := range d.Ips {
		rows[i] = r
		long[i].Cidr = r.Cidr
		long[i].FieldValues = more(&rows[i].FieldValues)
	}
	if n > 0 {
		last := inf.IpRaw{Cidr: d.Ips[0].Cidr, FieldValues: []string{"another", "row"}}
		rows = append(rows, last, last)
	}
	d.Ips = rows[:n]
	l.Ips = append(long, rows[n:]...)
	return l
}

// rowsBehind are the rows behind the end of the dataset's.
func rowsBehind(d *inf.IpData) string {
	return canonData(&inf.IpData{Fields: d.Fields, Ips: d.Ips[len(d.Ips):cap(d.Ips)]}, nil)
}

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "a case is 1-2 datasets (rows sharing storage in one of five ways, some not representable), a sequence of packs to all formats and entry points with failing outputs, and packs by concurrent tasks under a seeded schedule and the race detector; after each pack every dataset is what it was, and every healthy output is what packing alone gives; " +
			"non-trivial if a dataset was packed more than once or by several tasks",
		Real: []string{"db/convert", "db/format/ipdb (packer, writer)", "db/format/plain (packer)", "db/format/memip (packer)", "ipnet"},
		Stub: []string{"file system (in memory, faults injected)", "the caller's writer", "goroutine scheduler", "package sync", "clock", "map iteration order"},
		New:  func() any { return &c09{} },
		Gen: func(r *Rand, tier string) any {
			c := &c09{Layout: r.N(5), Share: r.One(3), Room: r.One(4), Sched: genSched(r)}
			n := r.I(1, 1, 2)
			for i := 0; i < n; i++ {
				s := &step{DS: genPackDS(r, packKinds[r.N(3)], "quick")}
				if len(s.DS.R) > 12 {
					s.DS.R = s.DS.R[:12]
				}
				if r.One(5) {
					s.Spoil, s.At = r.S("same", "long", "tab", "inside"), r.N(1000)
				}
				c.DS = append(c.DS, s)
			}
			pack := func(faults bool) *Pack9 {
				p := &Pack9{D: r.N(n), Kind: packKinds[r.N(3)], How: r.S("bytes", "writer", "file"), Path: r.N(2)}
				if faults && r.One(2) {
					switch p.How {
					case "file":
						p.Faults = genWriteFaults(r, 2000)
					case "writer":
						for _, f := range genWriteFaults(r, 2000) {
							if f.Op == "write" {
								p.Faults = append(p.Faults, f)
							}
						}
					}
				}
				return p
			}
			for k := r.In(0, 4); k > 0; k-- {
				c.Seq = append(c.Seq, pack(true))
			}
			if r.N(4) > 0 {
				for k := r.In(2, 4); k > 0; k-- {
					var t []*Pack9
					for m := r.In(1, 2); m > 0; m-- {
						p := pack(false)
						if r.One(6) {
							p.Kind = ""
						}
						if p.How == "writer" && r.One(4) {
							p.Faults = []*simos.Fault{{Op: "write", N: r.I(1, 2, 3), Err: "EIO", Stick: r.One(2)}}
						}
						t = append(t, p)
					}
					c.Tasks = append(c.Tasks, t)
				}
				if r.One(4) {
					c.Faults = genWriteFaults(r, 2000)
				}
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c09)
			if len(c.DS) == 0 || c.Layout < 0 || c.Layout > 4 || !validFaults(c.Faults) {
				return invalid("case")
			}
			for _, p := range c.Seq {
				if !p.valid(len(c.DS)) {
					return invalid("pack")
				}
			}
			for _, t := range c.Tasks {
				for _, p := range t {
					if !p.valid(len(c.DS)) {
						return invalid("pack")
					}
				}
			}
			rt.SetMapSeed(c.Map)
			make1 := func(s *step) *inf.IpData {
				d := s.DS.laidOut(c.Layout)
				if s.Spoil != "" {
					s.spoil(d)
				}
				return d
			}
			var ds, long []*inf.IpData
			// alone
			want := map[string]string{}
			for i, s := range c.DS {
				if s == nil || !packable(s.DS) {
					return invalid("dataset")
				}
				d := make1(s)
				shared := c.Share && i > 0 && c.DS[0].DS.V == s.DS.V
				if shared {
					// the same rows and fields, another version
					d = &inf.IpData{Fields: ds[0].Fields, Version: d.Version, Ips: ds[0].Ips}
				}
				if c.Room && !shared {
					long = append(long, roomy(d))
				}
				ds = append(ds, d)
				for _, k := range packKinds {
					alone := make1(s)
					if shared {
						a0 := make1(c.DS[0])
						alone = &inf.IpData{Fields: a0.Fields, Version: alone.Version, Ips: a0.Ips}
					}
					var t string
					o := rt.Do(dumpBudget, func() {
						b, err := convert.PackBytes(k, alone)
						if t = maskBuild(k, b); err != nil {
							t = "error"
						}
					})
					if v := outVerdict(o, "packing to "+k); v != nil {
						return v
					}
					want[fmt.Sprint(i, k)] = t
				}
			}
			var was, wasLong, wasBehind []string
			for _, d := range ds {
				was = append(was, canonData(d, nil))
				wasBehind = append(wasBehind, rowsBehind(d))
			}
			for _, d := range long {
				wasLong = append(wasLong, canonData(d, nil))
			}
			same := func(when string) *Verdict {
				for i, d := range ds {
					if s := canonData(d, nil); s != was[i] {
						return bad("modified", "dataset %d changed %s: %s", i, when, diffAt(s, was[i]))
					}
					if s := rowsBehind(d); c.Room && s != wasBehind[i] {
						return bad("modified", "a longer dataset sharing rows with dataset %d changed %s: %s", i, when, diffAt(s, wasBehind[i]))
					}
				}
				for i, d := range long {
					if s := canonData(d, nil); s != wasLong[i] {
						return bad("modified", "a longer dataset sharing storage with dataset %d changed %s: %s", i, when, diffAt(s, wasLong[i]))
					}
				}
				return nil
			}
			check := func(p *Pack9, s string, failed bool, err error) string {
				if p.Kind == "" {
					if s != was[p.D] {
						return "while others pack it, it reads " + diffAt(s, was[p.D])
					}
					return ""
				}
				w := want[fmt.Sprint(p.D, p.Kind)]
				switch {
				case err == nil && w == "error":
					return "packing succeeded, alone it is refused"
				case err == nil && p.How != "file" && s != w:
					return "packing gave " + diffAt(s, w) + " (alone)"
				case err != nil && w != "error" && !failed && p.How != "file":
					return fmt.Sprintf("packing failed without any failure of the output: %v", err)
				}
				return ""
			}
			fsys := simos.New()
			simos.Mount(fsys)
			file := func(p *Pack9, err error, log string) *Verdict {
				if p.How != "file" || err != nil || p.Kind == "" {
					return nil
				}
				b, ok := fsys.Get(p.name())
				if w := want[fmt.Sprint(p.D, p.Kind)]; !ok || maskBuild(p.Kind, b) != w {
					return bad("output", "pack of dataset %d to %s%s gave %s (alone)", p.D, p.name(), log, diffAt(maskBuild(p.Kind, b), w))
				}
				return nil
			}
			for k, p := range c.Seq {
				var s string
				var failed bool
				var err error
				fsys.ClearFailed()
				fsys.Faults = p.Faults
				if p.How != "file" {
					fsys.Faults = nil
				}
				o := rt.Do(dumpBudget, func() { s, failed, err = p.run(ds[p.D]) })
				fsys.Faults = nil
				if v := outVerdict(o, fmt.Sprintf("pack %d", k)); v != nil {
					return v
				}
				if v := same(fmt.Sprintf("by pack %d to %s", k, p.Kind)); v != nil {
					return v
				}
				if p.How == "file" && err != nil && !fsys.Injected() && want[fmt.Sprint(p.D, p.Kind)] != "error" {
					return bad("refused", "pack %d to a file failed without any failure of the file system: %v", k, err)
				}
				if m := check(p, s, failed, err); m != "" {
					return bad("output", "pack %d of dataset %d to %s: %s", k, p.D, p.Kind, m)
				}
				if v := file(p, err, ""); v != nil {
					return v
				}
			}
			x.Nontrivial = len(c.Seq) > 1 || len(c.Tasks) > 1
			if len(c.Tasks) == 0 {
				return nil
			}
			fsys.ClearFailed()
			fsys.Faults = c.Faults
			var tasks []rt.Task
			wrong := make([]string, len(c.Tasks))
			last := make([][]string, len(c.Tasks)) // files packed successfully
			for i := range c.Tasks {
				t := c.Tasks[i]
				tasks = append(tasks, rt.Task{F: func() {
					for k, p := range t {
						s, failed, err := p.run(ds[p.D])
						if m := check(p, s, failed, err); m != "" && wrong[i] == "" {
							wrong[i] = fmt.Sprintf("task %d, pack %d of dataset %d to %s: %s", i, k, p.D, p.Kind, m)
						}
						if p.How == "file" && p.Kind != "" && err == nil {
							last[i] = append(last[i], p.name())
						}
						if p.How == "file" && p.Kind != "" && err != nil && len(c.Faults) == 0 && want[fmt.Sprint(p.D, p.Kind)] != "error" && wrong[i] == "" {
							wrong[i] = fmt.Sprintf("task %d, pack %d of dataset %d to a file: failed without any failure of the file system: %v", i, k, p.D, err)
						}
					}
				}})
			}
			res := rt.Run(c.Sched, dumpBudget*len(tasks), nil, tasks...)
			fsys.Faults = nil
			x.Segs = res.Segs
			x.Extra = rt.SchedHash
			if v := verdictOf(res, "concurrent packs"); v != nil {
				return v
			}
			for _, w := range wrong {
				if w != "" {
					return bad("concurrent", "%s", w)
				}
			}
			if v := same("by concurrent packs"); v != nil {
				return v
			}
			// a file that was packed by several tasks holds one of the datasets
			for _, l := range last {
				for _, name := range l {
					b, ok := fsys.Get(name)
					kind := name[strings.LastIndexByte(name, '.'):]
					found := false
					for i := range ds {
						w := want[fmt.Sprint(i, kind)]
						found = found || ok && w != "error" && maskBuild(kind, b) == w
					}
					if !found {
						return bad("mixed", "after concurrent packs %s holds none of the datasets: %s", name, clip(maskBuild(kind, b), 500))
					}
				}
			}
			return nil
		},
	})
}
