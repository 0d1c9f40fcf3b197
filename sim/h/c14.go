//go:build go1.25

package h

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"log"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	converter "github.com/qiniu/uip/cmd/converter"
	server "github.com/qiniu/uip/cmd/server"
	simple "github.com/qiniu/uip/cmd/simple"
	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simnet"
	"github.com/qiniu/uip/verifsim/simos"
)

// C14: the commands never report success they did not achieve.
type c14 struct {
	Cmd   string         `json:"cmd,omitempty"` // "" (converter), simple, server
	Src   *DB            `json:"src"`
	In    string         `json:"in,omitempty"`   // missing, dir, ext, none ("": as it should be)
	Rule  *string        `json:"rule,omitempty"` // -r
	Line  *DB            `json:"line,omitempty"`
	LineP string         `json:"linep,omitempty"` // missing, dir, ext
	Rep   bool           `json:"rep,omitempty"`
	Outs  []out14        `json:"outs,omitempty"`
	Ask   string         `json:"ask,omitempty"`  // simple
	Busy  bool           `json:"busy,omitempty"` // server: the address is taken
	Full  bool           `json:"full,omitempty"` // simple: nothing can be written to the standard output
	Args  int            `json:"args,omitempty"` // drop so many arguments at the end
	Fault []*simos.Fault `json:"faults,omitempty"`
	Crash int            `json:"crash,omitempty"`
	Part  int            `json:"part,omitempty"`
	Chunk int            `json:"chunk,omitempty"`
	Map   uint64         `json:"map,omitempty"`
}

type out14 struct {
	Name string `json:"name"`
	Old  int    `json:"old,omitempty"`  // there is a file of that many bytes
	Good bool   `json:"good,omitempty"` // it is a complete one, of something else
	Age  int    `json:"age,omitempty"`  // when it was written, seconds after the input
	Dir  bool   `json:"dir,omitempty"`  // there is a directory
	Dev  bool   `json:"dev,omitempty"`  // there is a device
}

// std captures what the program prints.
type std14 struct{ out, err *os.File }

var stdFiles *std14

func (s *std14) reset() {
	for _, f := range []*os.File{s.out, s.err} {
		f.Truncate(0)
		f.Seek(0, io.SeekStart)
	}
}

func text14(f *os.File) string {
	f.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(f)
	return string(b)
}

// command runs a command as a process of its own.
func command(main func(), args []string, full bool) (code int, stdout, message string, o rt.Outcome, p *rt.Proc) {
	if stdFiles == nil {
		a, err1 := os.CreateTemp("", "uipsim-out")
		b, err2 := os.CreateTemp("", "uipsim-err")
		if err1 != nil || err2 != nil {
			panic("no temporary file for the output")
		}
		stdFiles = &std14{a, b}
		os.Remove(a.Name())
		os.Remove(b.Name())
	}
	stdFiles.reset()
	resetAll()
	oldOut, oldErr, oldArgs, oldFlags := os.Stdout, os.Stderr, os.Args, flag.CommandLine
	defer func() {
		os.Stdout, os.Stderr, os.Args, flag.CommandLine = oldOut, oldErr, oldArgs, oldFlags
		simos.SetStd(oldOut, oldErr)
		log.SetOutput(io.Discard)
		log.SetFlags(log.LstdFlags)
	}()
	os.Stdout, os.Stderr = stdFiles.out, stdFiles.err
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		os.Stdout = f
	}
	simos.SetStd(os.Stdout, stdFiles.err)
	log.SetOutput(stdFiles.err)
	log.SetFlags(0)
	os.Args, simos.Args = args, args
	flag.CommandLine = flag.NewFlagSet(args[0], flag.PanicOnError)
	flag.CommandLine.SetOutput(stdFiles.err)
	p = &rt.Proc{}
	r := rt.Run(rt.Sched{}, 2*dumpBudget, func() bool { simnet.Shutdown(); return true }, rt.Task{F: main, Proc: p})
	o = r.Out[0]
	if o.Panic == "" && r.Panic != "" {
		o.Panic, o.Stack = r.Panic, r.Stack
	}
	if p.Exited {
		code = p.Code
	}
	return code, text14(stdFiles.out), text14(stdFiles.err), o, p
}

var outNames = []string{"out.ipdb", "out.scan", "out.memip", "/w/d/out.ipdb", "/w/d/b.scan", "b.ipdb", "out.ipdb", "out.scan"}
var badNames = []string{"x.awdb", "noext", "/w/none/x.ipdb", "x.txt", "", "/w/none/x.scan", "x.IPDB"}

func (c *c14) rule() string {
	if c.Rule == nil || *c.Rule == "default" {
		return export.DefaultRule
	}
	return *c.Rule
}

// place prepares the file system.
func (c *c14) place() (*simos.FS, string, string) {
	f := simos.New()
	f.Mkdir("/w/d")
	in := "/w/in" + c.Src.Kind
	switch c.In {
	case "missing":
	case "dir":
		f.Mkdir(in)
	case "ext":
		in = "/w/in.nosuch"
		f.Put(in, c.Src.bytes())
	case "none":
		in = ""
	default:
		f.Put(in, c.Src.bytes())
	}
	line := ""
	if c.Line != nil {
		line = "/w/line" + c.Line.Kind
		switch c.LineP {
		case "missing":
		case "dir":
			f.Mkdir(line)
		case "ext":
			line = "/w/line.nosuch"
			f.Put(line, c.Line.bytes())
		default:
			f.Put(line, c.Line.bytes())
		}
	}
	for _, o := range c.Outs {
		if o.Name == "" {
			continue
		}
		if o.Dir {
			f.Mkdir(abs14(o.Name))
		} else if o.Dev {
			f.Dev(abs14(o.Name), fs.ModeDevice|fs.ModeCharDevice)
		} else if o.Old > 0 {
			if _, ok := f.Get(abs14(o.Name)); !ok {
				b := bytes.Repeat([]byte("old "), o.Old/4+1)[:o.Old]
				if k := filepath.Ext(o.Name); o.Good && (k == ".ipdb" || k == ".scan" || k == ".memip") {
					d := &DB{Kind: k, DS: &DS{V: 1, F: memipFields, Build: 1500000000}}
					for i := 0; i < 2; i++ {
						d.DS.R = append(d.DS.R, Row{fmt.Sprintf("%d.0.0.0/1", i*128), []string{fmt.Sprint("was", i), "p", "d", "i", "c", "亚洲"}})
					}
					b = d.bytes()
				}
				f.Put(abs14(o.Name), b)
				if t, ok := f.Time(in); ok {
					f.SetTime(abs14(o.Name), t.Add(time.Duration(o.Age)*time.Second))
				}
			}
		}
	}
	return f, in, line
}

func abs14(n string) string {
	if !strings.HasPrefix(n, "/") {
		return "/w/" + n
	}
	return n
}

// noOutput stands for an output that cannot be written; a complete output may be empty.
const noOutput = "\x00none"

// expected runs the steps of a conversion through the library, undisturbed:
// what each output must hold, or why the command must fail.
func (c *c14) expected() (want []string, fail string, v *Verdict) {
	fsys, in, line := c.place()
	simos.Mount(fsys)
	resetAll()
	var data *inf.IpData
	var err error
	ops := append([]operate.Operate{}, operate.DefaultOperates...)
	if line != "" {
		var q *query.Db
		o := rt.Do(dumpBudget, func() { q, err = query.NewDb(line) })
		if v := outVerdict(o, "opening the line database"); v != nil {
			return nil, "", v
		}
		if err != nil {
			return nil, fmt.Sprintf("line database: %v", err), nil
		}
		f := operate.AttachLineByCidr
		if c.Rep {
			f = operate.ReplaceLineByCidr
		}
		ops = append(ops, func(d *inf.IpData) { f(d, query.GetIntern(q)) })
	}
	ops = append(ops, operate.AttachDistrict)
	o := rt.Do(dumpBudget, func() { data, err = convert.DumpFile(in, c.rule(), ops) })
	if v := outVerdict(o, "dumping the source"); v != nil {
		return nil, "", v
	}
	if err != nil {
		return nil, fmt.Sprintf("source: %v", err), nil
	}
	outs := c.Outs
	if len(outs) == 0 {
		outs = []out14{{}}
	}
	for _, x := range outs {
		var b []byte
		o := rt.Do(dumpBudget, func() { b, err = convert.PackBytes(filepath.Ext(x.Name), data) })
		if v := outVerdict(o, "packing"); v != nil {
			return nil, "", v
		}
		switch {
		case err != nil:
			fail = fmt.Sprintf("output %s: %v", x.Name, err)
			want = append(want, noOutput)
		case x.Dir || strings.HasPrefix(x.Name, "/w/none/"):
			fail = "output " + x.Name + " cannot be created"
			want = append(want, noOutput)
		default:
			want = append(want, maskBuild(filepath.Ext(x.Name), b))
		}
	}
	return want, fail, nil
}

func genOuts14(r *Rand, kind string) []out14 {
	var out []out14
	n := r.I(1, 1, 2, 2, 3, 4)
	for i := 0; i < n; i++ {
		o := out14{Name: outNames[r.N(len(outNames))]}
		if r.One(12) {
			o.Name = badNames[r.N(len(badNames))]
		} else if r.One(25) && kind != ".awdb" {
			o.Name = "in" + kind
		}
		if r.One(3) {
			o.Old = r.I(1, 100, 5000)
			o.Good = r.One(2)
			o.Age = r.I(0, -3600, -1, 1, 3600, 100000000)
		} else if r.One(25) {
			o.Dir = true
			o.Name = fmt.Sprintf("dir%d%s", i, r.S(".ipdb", ".scan"))
		} else if r.One(12) {
			o.Dev = true
			o.Name = fmt.Sprintf("dev%d%s", i, r.S(".ipdb", ".scan", ".memip"))
		}
		out = append(out, o)
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C14",
		Rule: "a case is a command line of one of the programs (converter, simple, server) with its files in any state, and a pattern of open, read, create, write, sync, close and rename failures, a full standard output or a crash of the process; exit status, messages and files are compared with the steps done undisturbed through the library; " +
			"non-trivial if a failure was reported or the command succeeded",
		Real: []string{"cmd/converter, cmd/simple, cmd/server (their mains)", "db/convert", "db/query", "db/format/*", "db/field/*", "package flag"},
		Stub: []string{"file system (in memory, faults injected)", "process exit", "clock", "map iteration order", "network"},
		New:  func() any { return &c14{} },
		Gen: func(r *Rand, tier string) any {
			c := &c14{}
			c.Cmd = r.S("", "", "", "", "", "simple", "simple", "server")
			kind := r.S(".ipdb", ".awdb", ".scan", ".memip")
			if c.Cmd != "" {
				kind = r.S(".ipdb", ".awdb")
			}
			c.Src = genConvSrc(r, kind, r.In(1, 3))
			if r.One(8) {
				c.Src.Dmg = genDmg(r, len(c.Src.bytes()), 1)
			} else if r.One(12) && len(c.Src.DS.R) > 1 { // incomplete
				k := r.N(len(c.Src.DS.R))
				c.Src.DS.R = append(c.Src.DS.R[:k:k], c.Src.DS.R[k+1:]...)
			}
			if r.One(14) {
				c.In = r.S("missing", "dir", "ext", "none")
			}
			size := len(c.Src.bytes())
			switch c.Cmd {
			case "":
				switch r.N(4) {
				case 0:
					s := rules[r.N(len(rules))]
					c.Rule = &s
				case 1:
					s := genRule13(r, c.Src.DS.F)
					c.Rule = &s
				case 2:
					s := "default"
					c.Rule = &s
				}
				if r.One(3) {
					c.Line = genLineDB(r)
					c.Rep = r.One(2)
					if r.One(8) {
						c.LineP = r.S("missing", "dir", "ext")
					} else if r.One(10) {
						c.Line.Dmg = genDmg(r, len(c.Line.bytes()), 1)
					}
				}
				c.Outs = genOuts14(r, kind)
				if r.One(30) {
					c.Outs = nil
				}
				switch r.N(6) {
				case 0, 1:
					c.Fault = genWriteFaults(r, size)
				case 2:
					c.Fault = genReadFaults(r, size)
				case 3:
					c.Fault = append(genReadFaults(r, size), genWriteFaults(r, size)...)
				case 4:
					c.Crash, c.Part = r.In(1, 14), r.N(1001)
				}
				for _, f := range c.Fault {
					if r.One(3) {
						f.Path = r.S("in"+kind, ".ipdb", ".scan", "line.ipdb", "out")
					}
				}
			case "simple":
				p := newModel(c.Src.DS).probes(r, 3)
				c.Ask = p[r.N(len(p))].String()
				if r.One(4) {
					c.Ask = r.S("v", "version", "v4", "x", "", "1.2.3", "256.1.1.1", "8.8.8.8/24", "::g", "fe80::1%eth0")
				} else if r.One(5) { // an address and something more
					a := c.Ask
					c.Ask = r.S(" "+a, a+" ", a+"\n", "\t"+a, a+":80", "["+a+"]", "["+a+"]:80", a+"/32", a+"/24", a+"%eth0", "0"+a, a+".", a+".1", a+",", a+"#", "http://"+a, "\""+a+"\"", a+"\r")
				}
				if r.One(3) {
					c.Fault = genReadFaults(r, size)
				}
				c.Full = r.One(8)
				if r.One(8) {
					c.Args = r.In(1, 2)
				}
			case "server":
				c.Busy = r.One(2)
				if r.One(3) {
					c.Fault = genReadFaults(r, size)
				}
				if r.One(6) {
					c.Args = r.In(1, 2)
				}
			}
			if r.One(3) {
				c.Chunk = r.I(64, 511, 1000, 4096)
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c14)
			if c.Src == nil || !c.Src.valid() || c.Args < 0 || c.Args > 2 || c.Line != nil && (!c.Line.valid() || c.Line.Kind != ".ipdb" && c.Line.Kind != ".awdb") {
				return invalid("src")
			}
			var rd, wr []*simos.Fault
			for _, f := range c.Fault {
				if f != nil && (f.Op == "open" || f.Op == "read") {
					rd = append(rd, f)
				} else {
					wr = append(wr, f)
				}
			}
			if !validRead(rd) || !validFaults(wr) {
				return invalid("faults")
			}
			base := time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)
			rt.SetMapSeed(c.Map)
			rt.SetClock(base, nil)
			if c.Cmd != "" {
				return c.lookup(x)
			}
			for i, o := range c.Outs {
				if strings.ContainsAny(o.Name, ",") || (o.Dir || o.Dev) && (o.Old > 0 || o.Name == "") || o.Dir && o.Dev {
					return invalid("outs")
				}
				for _, p := range c.Outs[:i] {
					if p.Name == o.Name && (p.Dir || o.Dir || p.Dev || o.Dev) {
						return invalid("outs")
					}
				}
			}
			want, fail, v := c.expected()
			if v != nil {
				if len(c.Src.Dmg) > 0 || c.Line != nil && len(c.Line.Dmg) > 0 {
					return nil // damaged files are C06's business
				}
				return v
			}
			rt.SetMapSeed(c.Map)
			rt.SetClock(base, nil)
			fsys, in, line := c.place()
			simos.Mount(fsys)
			args := []string{"converter"}
			if in != "" {
				args = append(args, "-i", in)
			}
			var names []string
			for _, o := range c.Outs {
				names = append(names, o.Name)
			}
			if len(names) > 0 {
				args = append(args, "-o", strings.Join(names, ","))
			}
			if c.Rule != nil {
				args = append(args, "-r", *c.Rule)
			}
			if line != "" {
				args = append(args, "-line", line)
			}
			if c.Rep {
				args = append(args, "-line-replace")
			}
			before := map[string]string{}
			state := func(n string) string {
				b, ok := fsys.Get(abs14(n))
				if !ok {
					return "absent"
				}
				return "file " + string(b)
			}
			holds := func(k int) bool {
				b, ok := fsys.Get(abs14(c.Outs[k].Name))
				return ok && maskBuild(filepath.Ext(c.Outs[k].Name), b) == want[k]
			}
			for _, n := range append([]string{in, line}, names...) {
				if n != "" {
					before[abs14(n)] = state(n)
				}
			}
			done := make([]bool, len(c.Outs))
			var lost string
			watch := func() {
				for k := range c.Outs {
					if k >= len(want) || want[k] == noOutput || c.Outs[k].Dev {
						continue
					}
					if h := holds(k); h && state(c.Outs[k].Name) != before[abs14(c.Outs[k].Name)] {
						done[k] = true
					} else if !h && done[k] && lost == "" {
						lost = c.Outs[k].Name
					}
				}
			}
			fsys.Faults, fsys.Chunk, fsys.Watch = c.Fault, c.Chunk, watch
			if c.Crash > 0 {
				fsys.Crash = &simos.Crash{At: c.Crash, PerMille: c.Part}
			}
			code, _, msg, o, p := command(converter.SimMain, args, false)
			fsys.Watch = nil
			watch()
			crashed := p.Dead && !p.Exited
			failed := fsys.Injected()
			x.Nontrivial = failed || crashed || code == 0
			what := fmt.Sprintf("%q", args)
			if len(c.Src.Dmg) == 0 || o.Panic != "" {
				if v := outVerdict(o, what); v != nil && !crashed && !p.Exited {
					return v
				}
			}
			if lost != "" {
				return bad("damaged", "%s: the completed output %s was damaged by what followed", what, lost)
			}
			for k := range c.Outs {
				n := c.Outs[k].Name
				if n == "" || c.Outs[k].Dir || c.Outs[k].Dev {
					continue
				}
				ok := state(n) == before[abs14(n)]
				for j := range c.Outs { // the same name may be asked for twice
					if j < len(want) && want[j] != noOutput && c.Outs[j].Name == n && holds(j) {
						ok = true
					}
				}
				if !ok {
					return bad("torn", "%s (status %d): %s holds neither what it held before nor the complete output (%s)", what, code, n, strings.Join(tail(fsys.Log, 20), "; "))
				}
			}
			for _, n := range []string{in, line} {
				own := true
				for _, m := range names {
					own = own && abs14(m) != n
				}
				if n != "" && own && state(n) != before[n] {
					return bad("input", "%s: the input %s was changed", what, n)
				}
			}
			if crashed {
				Probe("crashed")
				return nil
			}
			if code != 0 {
				Probe("failure status")
				if strings.TrimSpace(msg) == "" {
					return bad("silent", "%s ended with status %d without a message", what, code)
				}
				if fail == "" && !failed && c.Crash == 0 {
					return bad("refused", "%s failed (status %d, %s) though nothing went wrong", what, code, clip(msg, 300))
				}
				return nil
			}
			Probe("success status")
			if fail != "" {
				return bad("success", "%s ended with a success status, but %s", what, fail)
			}
			for k := range c.Outs {
				if !holds(k) {
					b, ok := fsys.Get(abs14(c.Outs[k].Name))
					return bad("success", "%s ended with a success status, but %s is not the complete output (exists: %v, %s; %s)", what, c.Outs[k].Name, ok,
						diffAt(maskBuild(filepath.Ext(c.Outs[k].Name), b), want[k]), strings.Join(tail(fsys.Log, 20), "; "))
				}
				if fsys.Tainted(abs14(c.Outs[k].Name)) {
					return bad("success", "%s ended with a success status, but a write of %s failed (%s)", what, c.Outs[k].Name, strings.Join(tail(fsys.Log, 20), "; "))
				}
			}
			return nil
		},
	})
}

// lookup is a run of simple or server.
func (c *c14) lookup(x *Ctx) *Verdict {
	if c.Src.Kind != ".ipdb" && c.Src.Kind != ".awdb" || c.Line != nil || c.Crash != 0 || c.Cmd != "simple" && c.Cmd != "server" || c.Full && c.Cmd != "simple" {
		return invalid("lookup")
	}
	fsys, in, _ := c.place()
	simos.Mount(fsys)
	// undisturbed
	var q *query.Db
	var err error
	o := rt.Do(dumpBudget, func() { q, err = query.NewDb(in) })
	fail := ""
	if o.Bad() != "" {
		if len(c.Src.Dmg) > 0 {
			return nil
		}
		return outVerdict(o, "opening the database")
	}
	var parts []string
	if err != nil {
		fail = err.Error()
	} else if c.Cmd == "simple" {
		if strings.HasPrefix(c.Ask, "v") {
			v := q.VersionInfo()
			parts = append(parts, v.Version, fmt.Sprint(v.Build))
		} else if len(c.Src.Dmg) > 0 {
			return nil
		} else if ip := net.ParseIP(c.Ask); ip == nil {
			fail = "the address is malformed"
		} else if i, _, ok := c.Src.want(newModel(c.Src.DS), ip); !ok {
			fail = "the address is in no network"
		} else {
			parts = append(parts, i.Country, i.District, i.Province, i.City, i.Asn, i.Isp, i.Continent, i.Line)
		}
	} else if c.Busy {
		fail = "the address is in use"
	}
	if c.Args > 0 {
		fail = "arguments are missing"
	}
	if c.Full {
		if fail == "" {
			fail = "the standard output takes nothing"
		}
		simos.Note("stdout-full")
	}
	fsys, in, _ = c.place()
	simos.Mount(fsys)
	fsys.Faults, fsys.Chunk = c.Fault, c.Chunk
	args := []string{c.Cmd, in, c.Ask}
	main := simple.SimMain
	serves := false
	if c.Cmd == "server" {
		args[2] = addr10
		main = func() {
			rt.Go(func() {
				rt.Block(func() bool { return simnet.Listening(addr10) })
				serves = true
			})
			server.SimMain()
			rt.Exit(0)
		}
		if c.Busy {
			simnet.ListenErr = os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
	}
	args = args[:3-c.Args]
	code, out, msg, o, p := command(main, args, c.Full)
	time.Sleep(time.Hour)
	what := fmt.Sprintf("%q", args)
	if !p.Exited {
		if v := outVerdict(o, what); v != nil {
			return v
		}
	}
	x.Nontrivial = fsys.Injected() || code == 0
	if serves { // it ran until it was shut down
		if fail != "" {
			return bad("success", "%s serves, but %s", what, fail)
		}
		return nil
	}
	if code != 0 {
		if strings.TrimSpace(msg+out) == "" {
			return bad("silent", "%s ended with status %d without a message", what, code)
		}
		if fail == "" && !fsys.Injected() {
			return bad("refused", "%s failed (status %d, %s) though nothing went wrong", what, code, clip(msg, 300))
		}
		return nil
	}
	if c.Cmd == "server" {
		return bad("success", "%s ended with a success status without having served", what)
	}
	if fail != "" {
		return bad("success", "%s ended with a success status, but %s (output %q)", what, fail, clip(out, 200))
	}
	for _, p := range parts {
		if !strings.Contains(out, p) {
			return bad("success", "%s ended with a success status, but printed %q without %q", what, clip(out, 300), p)
		}
	}
	return nil
}
