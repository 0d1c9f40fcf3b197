//go:build go1.25

package h

import (
	"io/fs"
	"strings"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// attempt of a pack.
type attempt struct {
	Kind   string         `json:"kind"`
	How    string         `json:"how"`             // writer bytes file
	Place  string         `json:"place,omitempty"` // file: "" old link brokenlink missing dir ext noperm dev pipe devlink
	Faults []*simos.Fault `json:"faults,omitempty"`
}

// C03: a failed write is never acknowledged as a successful pack.
type c03 struct {
	DS  *DS        `json:"ds"`
	Try []*attempt `json:"try"` // the last is made without faults
	Map uint64     `json:"map,omitempty"`
}

var packKinds = []string{".ipdb", ".scan", ".memip"}

func (a *attempt) valid() bool {
	ok := false
	for _, k := range packKinds {
		ok = ok || a != nil && a.Kind == k
	}
	return ok && validFaults(a.Faults) && (a.How == "writer" || a.How == "bytes" || a.How == "file")
}

// run makes the attempt; name is the file it went to.
func (a *attempt) run(d *inf.IpData, fsys *simos.FS) (out []byte, whole, bad, soft bool, err error, o rt.Outcome) {
	rt.SetClock(time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC), nil)
	switch a.How {
	case "writer":
		s := &Sink{Faults: a.Faults}
		o = rt.Do(dumpBudget, func() { err = convert.PackWriter(a.Kind, d, s) })
		return s.B.Bytes(), true, s.Bad, s.Soft, err, o
	case "bytes":
		var b []byte
		o = rt.Do(dumpBudget, func() { b, err = convert.PackBytes(a.Kind, d) })
		return b, true, false, false, err, o
	}
	name := "/w/out" + a.Kind
	fsys.Faults = a.Faults
	o = rt.Do(dumpBudget, func() { err = convert.PackFile(name, d) })
	fsys.Faults = nil
	b, ok := fsys.Get(name)
	return b, ok, fsys.Tainted(name), false, err, o
}

func (a *attempt) setup(fsys *simos.FS) bool {
	name := "/w/out" + a.Kind
	fsys.Delete(name)
	switch a.Place {
	case "":
	case "old":
		fsys.Put(name, []byte(strings.Repeat("old content ", 3000)))
	case "link":
		fsys.Put("/w/real"+a.Kind, []byte("old"))
		fsys.Link(name, "/w/real"+a.Kind)
	case "brokenlink":
		fsys.Delete("/w/real" + a.Kind)
		fsys.Link(name, "/w/real"+a.Kind)
	case "dev":
		fsys.Dev(name, fs.ModeDevice|fs.ModeCharDevice)
	case "devlink":
		fsys.Dev("/w/real"+a.Kind, fs.ModeDevice|fs.ModeCharDevice)
		fsys.Link(name, "/w/real"+a.Kind)
	case "pipe":
		fsys.Dev(name, fs.ModeNamedPipe)
	case "missing":
		fsys.Link(name, "/w/nodir/x"+a.Kind)
	case "dir":
		fsys.Mkdir(name)
	case "noperm":
		fsys.Put(name, []byte("old"))
		fsys.SetMode(name, fs.FileMode(0444))
	default:
		return false
	}
	return true
}

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "a case is a dataset and a sequence of pack attempts (format, entry point, state of the target, faults of create, write, sync, close, rename ... at any call), the last one without faults; " +
			"non-trivial if a failure was reported to an attempt",
		Real: []string{"db/convert (PackWriter, PackBytes, PackFile)", "db/format/ipdb (packer, writer)", "db/format/plain (packer)", "db/format/memip (packer)"},
		Stub: []string{"file system (in memory, faults injected)", "the caller's writer", "clock", "map iteration order"},
		New:  func() any { return &c03{} },
		Gen: func(r *Rand, tier string) any {
			c := &c03{}
			kind := packKinds[r.N(3)]
			c.DS = genPackDS(r, kind, tier)
			if r.One(40) {
				c.DS.bulk(r, false)
			}
			n := r.I(1, 1, 2, 2, 3, 4)
			for i := 0; i <= n; i++ {
				a := &attempt{Kind: kind, How: r.S("writer", "bytes", "file", "file", "writer")}
				if i < n && r.One(4) {
					a.Kind = packKinds[r.N(3)]
				}
				if a.How == "file" {
					a.Place = r.S("", "", "old", "old", "link", "brokenlink", "missing", "dir", "noperm", "dev", "pipe", "devlink")
					if i == n {
						a.Place = r.S("", "old", "link", "dev", "pipe", "devlink")
					}
				}
				if i < n {
					switch a.How {
					case "file":
						a.Faults = genWriteFaults(r, 3000)
					case "writer":
						a.Faults = genSinkFaults(r, 3000)
					}
				}
				c.Try = append(c.Try, a)
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c03)
			if c.DS == nil || len(c.Try) == 0 || !packable(c.DS) {
				return invalid("dataset")
			}
			for _, a := range c.Try {
				if !a.valid() {
					return invalid("attempt")
				}
			}
			if len(c.Try[len(c.Try)-1].Faults) > 0 {
				return invalid("the last attempt has faults")
			}
			rt.SetMapSeed(c.Map)
			// the reference: a first attempt with a healthy output
			first := map[string]string{}
			for _, a := range c.Try {
				if _, ok := first[a.Kind]; ok {
					continue
				}
				ref := &attempt{Kind: a.Kind, How: "writer"}
				b, _, _, _, err, o := ref.run(c.DS.data(), nil)
				if v := outVerdict(o, "packing to "+a.Kind); v != nil {
					return v
				}
				if err != nil {
					return bad("refused", "packing a valid dataset to %s with a healthy output failed: %v", a.Kind, err)
				}
				if err := checkPacked(a.Kind, b, c.DS); err != nil {
					return bad("incomplete", "packing to %s succeeded, but the output does not hold the dataset: %v", a.Kind, err)
				}
				first[a.Kind] = maskBuild(a.Kind, b)
			}
			d := c.DS.data()
			for i, a := range c.Try {
				fsys := simos.New()
				if !a.setup(fsys) {
					return invalid("place")
				}
				simos.Mount(fsys)
				b, whole, failed, soft, err, o := a.run(d, fsys)
				if v := outVerdict(o, "packing to "+a.Kind); v != nil {
					return v
				}
				healthy := !failed && !soft && !fsys.Injected()
				x.Nontrivial = x.Nontrivial || !healthy
				if err == nil {
					if failed {
						return bad("acknowledged", "attempt %d (%s to a %s) succeeded although its output reported a failure (%s)", i, a.Kind, a.How, strings.Join(tail(fsys.Log, 30), "; "))
					}
					if !whole {
						return bad("acknowledged", "attempt %d (%s to a %s) succeeded, but there is no output (%s)", i, a.Kind, a.How, strings.Join(tail(fsys.Log, 30), "; "))
					}
					if k := a.Place; (k == "dev" || k == "pipe" || k == "devlink") && !fsys.IsDev("/w/out"+a.Kind) && !a.faults("stat") {
						return bad("acknowledged", "attempt %d (%s to a %s) succeeded, but replaced the device it should have written to", i, a.Kind, k)
					}
					if got := maskBuild(a.Kind, b); got != first[a.Kind] {
						return bad("acknowledged", "attempt %d (%s to a %s) succeeded, but its output is not the complete encoding: %s (%s)", i, a.Kind, a.How, diffAt(got, first[a.Kind]), strings.Join(tail(fsys.Log, 30), "; "))
					}
					continue
				}
				Probe("attempt failed")
				if healthy && a.writable() {
					return bad("refused", "attempt %d (%s to a %s, %q) failed without any failure of the output: %v", i, a.Kind, a.How, a.Place, err)
				}
			}
			return nil
		},
	})
}

func (a *attempt) faults(op string) bool {
	for _, f := range a.Faults {
		if f.Op == op {
			return true
		}
	}
	return false
}

// writable tells whether a file can be packed there.
func (a *attempt) writable() bool {
	switch a.Place {
	case "", "old", "link", "dev", "pipe", "devlink":
		return true
	}
	return false
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
