//go:build go1.25

package h

import (
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// peer is a reader in another language, running as a child in lockstep: it does
// nothing except between a request and its answer.
type peer struct {
	name string
	args []string
	pid  int
	in   int
	out  int
	buf  []byte
}

var peerList []*peer

// peers starts them when they are needed first.
func peers() []*peer {
	if peerList == nil {
		dir := os.Getenv("SIM_DIR")
		java := []string{"java", "-Xmx1g", "-Xss1m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-Xshare:auto",
			"--add-exports", "java.base/sun.net.util=ALL-UNNAMED", "-cp", filepath.Join(dir, "java-classes"), "peer.Peer"}
		for _, p := range filepath.SplitList(os.Getenv("PATH")) {
			if fi, err := os.Stat(filepath.Join(p, "java")); err == nil && fi.Mode()&0111 != 0 && !fi.IsDir() {
				java[0] = filepath.Join(p, "java")
				break
			}
		}
		peerList = []*peer{
			{name: "java", args: java},
			{name: "rust", args: []string{filepath.Join(dir, "rust-target", "release", "peer")}},
		}
	}
	return peerList
}

func (p *peer) start() {
	var a, b [2]int
	if syscall.Pipe2(a[:], syscall.O_CLOEXEC) != nil || syscall.Pipe2(b[:], syscall.O_CLOEXEC) != nil {
		panic("harness: no pipe")
	}
	nul, _ := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	pid, err := syscall.ForkExec(p.args[0], p.args, &syscall.ProcAttr{
		Env:   []string{"PATH=" + os.Getenv("PATH"), "LC_ALL=C", "TZ=UTC", "HOME=/nonexistent"},
		Files: []uintptr{uintptr(a[0]), uintptr(b[1]), uintptr(nul)},
	})
	if err != nil {
		panic(fmt.Sprintf("harness: %s: %v", p.args[0], err))
	}
	for _, fd := range []int{a[0], b[1], nul} {
		syscall.Close(fd)
	}
	p.pid, p.in, p.out, p.buf = pid, a[1], b[0], nil
}

func (p *peer) stop() {
	if p.pid == 0 {
		return
	}
	syscall.Kill(p.pid, syscall.SIGKILL)
	syscall.Close(p.in)
	syscall.Close(p.out)
	var ws syscall.WaitStatus
	for {
		if _, err := syscall.Wait4(p.pid, &ws, 0, nil); err != syscall.EINTR {
			break
		}
	}
	p.pid = 0
}

// cpu is the processor time the child has used.
func (p *peer) cpu() time.Duration {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.pid))
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 12 {
			u, _ := strconv.ParseInt(f[11], 10, 64)
			v, _ := strconv.ParseInt(f[12], 10, 64)
			return time.Duration(u+v) * 10 * time.Millisecond
		}
	}
	return 0
}

const peerCPU = 20 * time.Second

// ask sends a request and waits for its answer.  An answer that takes more than
// peerCPU of processor time is a hang.
func (p *peer) ask(req string) string {
	if p.pid == 0 {
		p.start()
	}
	t0 := time.Duration(-1)
	for b := []byte(req + "\n"); len(b) > 0; {
		n, err := syscall.Write(p.in, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			p.stop()
			return "D the process died"
		}
		b = b[n:]
	}
	tmp := make([]byte, 1<<16)
	for {
		if i := strings.IndexByte(string(p.buf), '\n'); i >= 0 {
			l := string(p.buf[:i])
			p.buf = p.buf[i+1:]
			if strings.HasPrefix(l, "~") {
				return l[1:]
			}
			continue
		}
		pfd := struct {
			fd      int32
			events  int16
			revents int16
		}{int32(p.out), 1, 0}
		n, _, errno := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&pfd)), 1, 1000)
		if errno == syscall.EINTR {
			continue
		}
		if n == 0 {
			c := p.cpu()
			if t0 < 0 {
				t0 = c
			} else if c-t0 > peerCPU {
				p.stop()
				return "H no answer"
			}
			continue
		}
		k, err := syscall.Read(p.out, tmp)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || k <= 0 {
			p.stop()
			return "D the process died"
		}
		p.buf = append(p.buf, tmp[:k]...)
	}
}

// fault tells whether an answer is none that a caller can be asked to handle.
func peerFault(a string) string {
	switch {
	case strings.HasPrefix(a, "X "):
		return "panic"
	case strings.HasPrefix(a, "D "):
		return "crash"
	case strings.HasPrefix(a, "H "):
		return "hang"
	}
	return ""
}

// peerAnswer is the answer line of a record.
func peerAnswer(i *inf.IpInfo) string {
	var f []string
	for _, s := range []string{i.Country, i.District, i.Province, i.City, i.Asn, i.Isp, i.Continent, i.Line} {
		f = append(f, hex.EncodeToString([]byte(s)))
	}
	return "A " + strings.Join(f, ",")
}

func showPeer(a string) string {
	if !strings.HasPrefix(a, "A ") {
		return a
	}
	n := []string{"country", "district", "province", "city", "asn", "isp", "continent", "line"}
	var out []string
	for i, h := range strings.Split(a[2:], ",") {
		if b, _ := hex.DecodeString(h); len(b) > 0 && i < len(n) {
			out = append(out, n[i]+"="+clip(string(b), 60))
		}
	}
	return "{" + strings.Join(out, " ") + "}"
}

// C15: the readers in all three languages agree.
type c15 struct {
	Steps []*step15 `json:"steps"`
	Map   uint64    `json:"map,omitempty"`
}

type step15 struct {
	DS     *DS            `json:"ds"`
	Opt    *IpdbOpt       `json:"opt,omitempty"`    // written by the harness; otherwise packed
	Align  int            `json:"align,omitempty"`  // the file is grown to a length that is a multiple of this ...
	Off    int            `json:"off,omitempty"`    // ... and so many bytes
	File   bool           `json:"file,omitempty"`   // packed over the file of the steps before
	Faults []*simos.Fault `json:"faults,omitempty"` // while packing
	Clock  int64          `json:"clock,omitempty"`
	Tear   []int          `json:"tear,omitempty"` // bytes that are left, per mille of the file; negative: bytes missing
	Dmg    []Dmg          `json:"dmg,omitempty"`
	Path   bool           `json:"path,omitempty"` // opened by name
	Asks   []*ask15       `json:"asks"`
}

// ask15 is one lookup: K is s (text), b (bytes), u (integer), or m: the caller
// changes the last answer it was given.
type ask15 struct {
	K string `json:"k"`
	A string `json:"a,omitempty"`
	F int    `json:"f,omitempty"` // form
}

// forms of an address that mean the same.
func (a *ask15) req() (req string, ip net.IP, text string, ok bool) {
	if a.K == "m" {
		return "M", nil, "", true
	}
	ip = net.ParseIP(a.A)
	if ip == nil {
		return "", nil, "", false
	}
	v4 := ip.To4()
	switch a.K {
	case "s":
		text = ip.String()
		if v4 != nil {
			if a.F%4 == 1 {
				text = "::ffff:" + text
			} else if a.F%4 == 2 {
				text = fmt.Sprintf("0:0:0:0:0:FFFF:%x:%x", int(v4[0])<<8|int(v4[1]), int(v4[2])<<8|int(v4[3]))
			}
		} else {
			switch a.F % 4 {
			case 1, 2:
				var g []string
				for i := 0; i < 16; i += 2 {
					g = append(g, fmt.Sprintf([]string{"%04x", "%X"}[a.F%4-1], int(ip[i])<<8|int(ip[i+1])))
				}
				text = strings.Join(g, ":")
			case 3:
				text = strings.ToUpper(text)
			}
		}
		return "S " + text, ip, text, true
	case "b":
		b := ip.To16()
		if v4 != nil && a.F%2 == 0 {
			b = v4
		}
		return "B " + hex.EncodeToString(b), b, "", true
	case "u":
		if v4 == nil {
			return "", nil, "", false
		}
		return fmt.Sprintf("U %d", uint32(v4[0])<<24|uint32(v4[1])<<16|uint32(v4[2])<<8|uint32(v4[3])), v4, "", true
	}
	return "", nil, "", false
}

// open15 has every reader open the bytes.
func open15(x *Ctx, b []byte, path bool) (q *query.Db, replies []string, v *Verdict) {
	var err error
	req := "O " + hex.EncodeToString(b)
	if path {
		fsys := simos.New()
		simos.Mount(fsys)
		fsys.Put("/w/x.ipdb", b)
		name := filepath.Join(os.Getenv("SIM_DIR"), fmt.Sprintf("peer%d.ipdb", os.Getpid()))
		if e := os.WriteFile(name, b, 0600); e != nil {
			panic("harness: " + e.Error())
		}
		defer os.Remove(name)
		req = "F " + name
	}
	o := rt.Do(dumpBudget, func() {
		if path {
			q, err = query.NewDb("/w/x.ipdb")
		} else {
			q, err = query.NewDbFromBytes(".ipdb", append([]byte(nil), b...))
		}
	})
	if v := outVerdict(o, "opening (Go)"); v != nil {
		return nil, nil, v
	}
	if err != nil {
		q = nil
		replies = append(replies, "E "+err.Error())
	} else {
		replies = append(replies, "ok")
	}
	for _, p := range peers() {
		a := p.ask(req)
		if f := peerFault(a); f != "" {
			return nil, nil, bad(f+":"+p.name, "opening a file (%s): %s", p.name, clip(a, 400))
		}
		replies = append(replies, a)
	}
	x.Eval(1)
	return q, replies, nil
}

var langs15 = []string{"Go", "Java", "Rust"}

// lookup15 asks every reader; the answers come in the order of langs15.
func lookup15(q *query.Db, a *ask15) (replies []string, v *Verdict) {
	req, ip, text, _ := a.req()
	var info *inf.IpInfo
	var err error
	o := rt.Do(openBudget, func() {
		switch a.K {
		case "s":
			info, _, err = q.QueryStr(text)
		case "b":
			info, _, err = q.Query(append(net.IP(nil), ip...))
		case "u":
			info, _, err = q.QueryU32(uint32(ip[0])<<24 | uint32(ip[1])<<16 | uint32(ip[2])<<8 | uint32(ip[3]))
		}
	})
	if v := outVerdict(o, "lookup (Go)"); v != nil {
		return nil, v
	}
	switch {
	case err != nil:
		replies = append(replies, "E "+err.Error())
	case info == nil:
		replies = append(replies, "X no answer")
	default:
		replies = append(replies, peerAnswer(info))
	}
	for _, p := range peers() {
		r := p.ask(req)
		if f := peerFault(r); f != "" {
			return nil, bad(f+":"+p.name, "%s (%s): %s", req, p.name, clip(r, 400))
		}
		replies = append(replies, r)
	}
	return replies, nil
}

// badTexts are no addresses in any language.
var badTexts = []string{"x", "1.2.3.4.5", "1.2.3.256", "::g", "1:2:3:4:5:6:7:8:9", ":", "1.2.3.-4", "1::2::3", "12345::"}

func genAsks(r *Rand, m *Model, max int) []*ask15 {
	var out []*ask15
	for _, ip := range m.probes(r, max) {
		a := &ask15{A: ip.String(), F: r.N(4)}
		if ip.To4() != nil {
			a.K = r.S("s", "s", "b", "u")
		} else {
			a.K = r.S("s", "s", "b")
		}
		out = append(out, a)
		if r.One(12) {
			out = append(out, &ask15{K: "m"}, a)
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C15",
		Rule: "a case is a history of 1-4 databases at one path, packed (under output faults, at any clock reading) or written by the harness in any layout the format allows, each served complete, torn at several places, or damaged; after every step the Go, Java and Rust readers open it anew, by content or by name, and are asked the same addresses in and around all networks, in text, byte and integer form, with callers that change their answers; every answer must be the model's in all three, a torn file refused by all three; " +
			"non-trivial if a fault fired, a file was torn or damaged, or one of several steps was reached",
		Real: []string{"db/convert (PackFile, PackBytes)", "db/format/ipdb", "db/query", "java/src/main (as a process in lockstep)", "rust/src (as a process in lockstep)"},
		Stub: []string{"file system of the packing process (in memory, faults injected)", "clock", "map iteration order", "com.google.gson (a JSON parser of the harness behind its interface)", "crate byteorder (the same reads)"},
		New:  func() any { return &c15{} },
		Gen: func(r *Rand, tier string) any {
			c := &c15{}
			for n := r.I(1, 1, 2, 2, 3, 4); n > 0; n-- {
				s := &step15{DS: genPackDS(r, ".ipdb", tier), Path: r.One(3)}
				if r.One(60) {
					s.DS = genBig(r, dsOpt{})
				}
				switch r.N(3) {
				case 0:
					o := genIpdbOpt(r)
					s.Opt = &o
					if r.One(4) {
						s.Align, s.Off = r.I(512, 1024, 4096, 8192, 16384, 16384, 32768, 65536), r.I(-1, 0, 0, 1)
						s.Path = !r.One(4)
					}
				case 1:
					s.File = true
					fallthrough
				default:
					s.Clock = int64(r.N(1 << 31))
					if r.One(10) {
						s.Clock = int64(1<<31 + r.N(1<<32))
					}
					if r.One(10) {
						s.DS.bulk(r, false)
					}
					if s.File && r.One(2) {
						s.Faults = genWriteFaults(r, 3000)
					}
				}
				switch r.N(5) {
				case 0, 1:
					for k := r.In(1, 4); k > 0; k-- {
						s.Tear = append(s.Tear, r.I(0, 1, 5, 10, 20, 50, 100, 500, 900, 990, r.N(1000), -1, -1, -2, -3, -4, -8, -9, -r.In(1, 100), -r.In(1, 400)))
					}
				case 2:
					s.Dmg = genDmg(r, r.I(200, 300, 600, 2000), 2)
				}
				s.Asks = genAsks(r, newModel(s.DS), 20)
				if r.One(6) {
					s.Asks = append(s.Asks, &ask15{K: "x", F: r.N(len(badTexts))})
				}
				c.Steps = append(c.Steps, s)
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c15)
			if len(c.Steps) == 0 {
				return invalid("no steps")
			}
			rt.SetMapSeed(c.Map)
			fsys := simos.New()
			const name = "/w/db.ipdb"
			var cur *DS // what the path holds
			x.Nontrivial = len(c.Steps) > 1
			for i, s := range c.Steps {
				if s == nil || !packable(s.DS) || !validFaults(s.Faults) || s.Opt != nil && (len(s.Opt.Links) > 0 || len(s.Opt.Meta) > 0) {
					return invalid("step")
				}
				for _, a := range s.Asks {
					if a == nil {
						return invalid("ask")
					}
					if _, _, _, ok := a.req(); !ok && a.K != "x" {
						return invalid("ask")
					}
				}
				simos.Mount(fsys)
				rt.SetClock(time.Unix(s.Clock, 0), nil)
				var b []byte
				ds := s.DS
				var err error
				switch {
				case s.Opt != nil:
					if s.Opt.Lang > 0 && !packable15(s.DS) {
						return invalid("too long")
					}
					b = writeIpdb(s.DS, *s.Opt)
					if s.Align > 0 && s.Align <= 1<<16 {
						o := *s.Opt
						o.Meta = map[string]string{"pad": `""`}
						n := len(writeIpdb(s.DS, o))
						more := (s.Align-n%s.Align)%s.Align + s.Off
						if more >= 0 {
							o.Meta["pad"] = `"` + strings.Repeat(".", more) + `"`
							b = writeIpdb(s.DS, o)
							Probe("aligned length")
						}
					}
				case !s.File:
					o := rt.Do(dumpBudget, func() { b, err = convert.PackBytes(".ipdb", s.DS.data()) })
					if v := outVerdict(o, "packing"); v != nil {
						return v
					}
					if err != nil {
						return bad("refused", "step %d: packing a valid dataset failed: %v", i, err)
					}
				default:
					fsys.ClearFailed()
					fsys.Faults = s.Faults
					o := rt.Do(dumpBudget, func() { err = convert.PackFile(name, s.DS.data()) })
					fsys.Faults = nil
					if v := outVerdict(o, "packing"); v != nil {
						return v
					}
					x.Nontrivial = x.Nontrivial || fsys.AnyFailed()
					if err != nil && !fsys.Injected() {
						return bad("refused", "step %d: packing a valid dataset failed: %v", i, err)
					}
					got, there := fsys.Get(name)
					if !there {
						if err == nil {
							return bad("lost", "step %d: the file is not there after an acknowledged pack", i)
						}
						resetAll()
						continue
					}
					if err == nil {
						cur = s.DS
					} else if cur == nil || checkIpdbFile(got, cur) != nil {
						cur = s.DS // the failed pack took effect
					}
					b, ds = got, cur
				}
				resetAll()
				m := newModel(ds)
				for _, k := range s.Tear {
					n := len(b) * k / 1000
					if k < 0 {
						n = len(b) + k
					}
					if n < 0 || n >= len(b) {
						continue
					}
					x.Nontrivial = true
					_, rs, v := open15(x, b[:n], s.Path)
					if v != nil {
						return v
					}
					Probe("torn")
					for j, a := range rs {
						if a == "ok" {
							return bad("torn:"+langs15[j], "step %d: the %s reader opens the first %d bytes of a file of %d", i, langs15[j], n, len(b))
						}
					}
				}
				if len(s.Dmg) > 0 {
					x.Nontrivial = true
					q, rs, v := open15(x, applyDmg(b, s.Dmg), s.Path)
					if v != nil {
						return v
					}
					for j, a := range rs {
						if a == "ok" {
							Probe("damaged but opened: " + langs15[j])
						}
					}
					for _, a := range s.Asks {
						req, _, _, ok := a.req()
						if !ok {
							continue
						}
						if q != nil && a.K != "m" {
							if _, v := lookup15(q, a); v != nil {
								return v
							}
							continue
						}
						for _, p := range peers() {
							if p.name == "rust" && a.K == "m" {
								continue
							}
							r := p.ask(req)
							if f := peerFault(r); f != "" {
								return bad(f+":"+p.name, "%s of a damaged file (%s): %s", req, p.name, clip(r, 400))
							}
						}
					}
				}
				q, rs, v := open15(x, b, s.Path)
				if v != nil {
					return v
				}
				for j, a := range rs {
					if a != "ok" {
						return bad("refused:"+langs15[j], "step %d: the %s reader does not open the database: %s", i, langs15[j], clip(a, 300))
					}
				}
				for _, a := range s.Asks {
					if a.K == "m" {
						if r := peers()[0].ask("M"); r != "ok" {
							return bad("crash:java", "%s", r)
						}
						continue
					}
					if a.K == "x" {
						t := badTexts[a.F%len(badTexts)]
						var err error
						o := rt.Do(openBudget, func() { _, _, err = q.QueryStr(t) })
						if v := outVerdict(o, "lookup (Go)"); v != nil {
							return v
						}
						rs := []string{"A", peers()[0].ask("S " + t), peers()[1].ask("S " + t)}
						if err != nil {
							rs[0] = "E"
						}
						for j, r := range rs {
							if !strings.HasPrefix(r, "E") {
								return bad("text:"+langs15[j], "the %s reader answers for %q: %s", langs15[j], t, showPeer(r))
							}
						}
						continue
					}
					rs, v := lookup15(q, a)
					if v != nil {
						v.Msg = fmt.Sprintf("step %d: %s", i, v.Msg)
						return v
					}
					req, ip, _, _ := a.req()
					ad, v6 := addrOf(ip)
					want := "E"
					if row, ok := m.find(ad, v6); ok {
						want = peerAnswer(ds.info(row.row))
						Probe("found")
					} else {
						Probe("absent")
					}
					for j, r := range rs {
						if want == "E" && strings.HasPrefix(r, "E ") || r == want {
							continue
						}
						return bad("answer:"+langs15[j], "step %d: %s %s: the %s reader gives %s; the database holds %s", i, req, a.A, langs15[j], showPeer(r), showPeer(want))
					}
				}
				var ver *inf.VersionInfo
				o := rt.Do(openBudget, func() { ver = q.VersionInfo() })
				if v := outVerdict(o, "version (Go)"); v != nil {
					return v
				}
				want := fmt.Sprintf("V %d %d %d %v %v ", ver.IpType, ver.Count, ver.Build, int(ver.IpType)&1 != 0, int(ver.IpType)&2 != 0)
				for j, p := range peers() {
					r := p.ask("V")
					h := ""
					if k := strings.LastIndexByte(r, ' '); k >= 0 {
						r, h = r[:k+1], r[k+1:]
					}
					if r != want {
						return bad("version:"+langs15[j+1], "step %d: version of the %s reader %q, of the Go reader %q", i, langs15[j+1], r, want)
					}
					if h == "" {
						return bad("version:"+langs15[j+1], "step %d: the %s reader gives no version", i, langs15[j+1])
					}
					if ds.Label != "" && h != hex.EncodeToString([]byte(ds.Label)) {
						n, _ := hex.DecodeString(h)
						return bad("version:"+langs15[j+1], "step %d: the %s reader calls the database %q instead of %q", i, langs15[j+1], n, ds.Label)
					}
				}
			}
			return nil
		},
	})
}

// packable15 tells whether the rows still fit when the columns of a second
// language and surplus columns are added.
func packable15(d *DS) bool {
	for _, r := range d.R {
		n := 2*len(r.V) + 10
		for _, v := range r.V {
			n += len(v)
		}
		if n > 65535 {
			return false
		}
	}
	return true
}
