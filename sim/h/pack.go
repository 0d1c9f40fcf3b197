//go:build go1.25

package h

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simos"
)

// Sink is an output of the caller's own that fails as told.
type Sink struct {
	B      bytes.Buffer
	Faults []*simos.Fault
	hits   int
	Bad    bool // a failure was reported
	// Soft: a part was taken without an error, or with one that asks for another
	// attempt. What comes of that may be an error or a complete output.
	Soft bool
}

// sinkErrs are failures which writers other than files report.
var sinkErrs = map[string]error{
	"short":    nil,
	"timeout":  os.ErrDeadlineExceeded,
	"closed":   os.ErrClosed,
	"pipe":     io.ErrClosedPipe,
	"eof":      io.EOF,
	"eshort":   io.ErrShortWrite,
	"progress": io.ErrNoProgress,
	"text":     errors.New("the disk is full"),
	"EINTR":    syscall.EINTR,
	"EAGAIN":   syscall.EAGAIN,
}

// genSinkFaults makes faults of a writer given by the caller.
func genSinkFaults(r *Rand, size int) []*simos.Fault {
	var out []*simos.Fault
	for len(out) == 0 {
		for _, f := range genWriteFaults(r, size) {
			if f.Op == "write" {
				if r.One(2) {
					f.Err = r.S("short", "short", "timeout", "closed", "pipe", "eof", "eshort", "progress", "text", "EINTR", "EINTR", "EAGAIN", "EPIPE")
					switch f.Err { // another attempt succeeds
					case "short", "EINTR", "EAGAIN":
						f.Stick = false
					}
				}
				out = append(out, f)
			}
		}
	}
	return out
}

func (s *Sink) Write(b []byte) (int, error) {
	rt.Y(0)
	s.hits++
	for _, f := range s.Faults {
		if s.hits == f.N || (f.Stick && s.hits > f.N) {
			n := f.Part
			if n > len(b) {
				n = len(b)
			}
			if f.Err == "short" && n == len(b) {
				break // nothing is short here
			}
			s.B.Write(b[:n])
			simos.Note("sink:" + f.Err)
			err, ok := sinkErrs[f.Err]
			if !ok {
				err = simos.Errno(f.Err)
			}
			switch f.Err {
			case "short", "EINTR", "EAGAIN":
				s.Soft = true
			default:
				s.Bad = true
			}
			return n, err
		}
	}
	return s.B.Write(b)
}

// ipdbRow is a record found in the tree of an ipdb file.
type ipdbRow struct {
	p    Pfx
	cols []string
}

// readIpdb decodes an ipdb file completely, sharing no code with the reader
// under test.
func readIpdb(b []byte) (map[string]any, []ipdbRow, error) {
	if len(b) < 4 {
		return nil, nil, fmt.Errorf("no header")
	}
	n := int(binary.BigEndian.Uint32(b))
	if len(b) < 4+n {
		return nil, nil, fmt.Errorf("short metadata")
	}
	var meta map[string]any
	if err := json.Unmarshal(b[4:4+n], &meta); err != nil {
		return nil, nil, err
	}
	num := func(k string) int {
		f, _ := meta[k].(float64)
		return int(f)
	}
	b = b[4+n:]
	if num("total_size") != len(b) {
		return meta, nil, fmt.Errorf("total_size %d, there are %d bytes", num("total_size"), len(b))
	}
	nodes := num("node_count")
	if nodes < 1 || len(b) < nodes*8+8 {
		return meta, nil, fmt.Errorf("node_count %d", nodes)
	}
	var rows []ipdbRow
	seen := make([]bool, nodes)
	var walk func(node int, a A, depth int) error
	walk = func(node int, a A, depth int) error {
		if depth > 128 || seen[node] {
			return fmt.Errorf("node %d reached twice", node)
		}
		seen[node] = true
		for bit := 0; bit < 2; bit++ {
			c := int(binary.BigEndian.Uint32(b[node*8+bit*4:]))
			x := a.setBit(depth, 128, bit)
			switch {
			case c == nodes || depth >= 128:
			case c < nodes:
				if err := walk(c, x, depth+1); err != nil {
					return err
				}
			default:
				o := c - nodes + nodes*8
				if o+2 > len(b) || o+2+int(binary.BigEndian.Uint16(b[o:])) > len(b) {
					return fmt.Errorf("record at %d of %d", o, len(b))
				}
				cols := strings.Split(string(b[o+2:o+2+int(binary.BigEndian.Uint16(b[o:]))]), "\t")
				p := Pfx{x, depth + 1, true}
				if p.bits >= 96 && (Pfx{A{0, 0xffff00000000}, 96, true}).has(x) {
					p = Pfx{A{0, x.lo & 0xffffffff}, depth + 1 - 96, false}
				}
				rows = append(rows, ipdbRow{p, cols})
			}
		}
		return nil
	}
	if err := walk(0, A{}, 0); err != nil {
		return meta, nil, err
	}
	return meta, rows, nil
}

// checkIpdbFile compares a file with the dataset it was packed from.
func checkIpdbFile(b []byte, d *DS) error {
	meta, rows, err := readIpdb(b)
	if err != nil {
		return err
	}
	var fields []string
	if l, ok := meta["fields"].([]any); ok {
		for _, x := range l {
			s, _ := x.(string)
			fields = append(fields, s)
		}
	}
	if len(fields) != len(d.F) {
		return fmt.Errorf("fields %q", fields)
	}
	for i, f := range d.F {
		if n, ok := ipdbNames[f]; fields[i] != f && (!ok || fields[i] != n) {
			return fmt.Errorf("field %d is %q instead of %q", i, fields[i], f)
		}
	}
	if len(rows) != len(d.R) {
		return fmt.Errorf("%d records instead of %d", len(rows), len(d.R))
	}
	m := newModel(d)
	for _, r := range rows {
		x, ok := m.find(r.p.lo(), r.p.v6)
		if !ok || x.p != (Pfx{r.p.lo(), r.p.bits, r.p.v6}) {
			return fmt.Errorf("a record for %v, which is no network of the dataset", r.p)
		}
		v := d.R[x.row].V
		if len(r.cols) != len(v) {
			return fmt.Errorf("%v holds %q", r.p, r.cols)
		}
		for i := range v {
			if r.cols[i] != v[i] && continentNames[r.cols[i]] != v[i] {
				return fmt.Errorf("%v: field %s is %q instead of %q", r.p, d.F[i], r.cols[i], v[i])
			}
		}
	}
	return nil
}

// checkScanText compares a scan file with the dataset.
func checkScanText(b []byte, d *DS) error {
	s := string(b)
	if !strings.HasSuffix(s, "\n") {
		return fmt.Errorf("the last line is cut")
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(lines) != 3+len(d.R) {
		return fmt.Errorf("%d lines for %d networks", len(lines), len(d.R))
	}
	for i := 0; i < 3; i++ {
		if !strings.HasPrefix(lines[i], "#### ") {
			return fmt.Errorf("header line %d is %q", i, lines[i])
		}
	}
	var v inf.VersionInfo
	if err := json.Unmarshal([]byte(lines[1][5:]), &v); err != nil {
		return err
	}
	if v.IpType != inf.IpType(d.V) || v.Version != d.Label || !eqStrs(v.ExtraInfo, d.Extra) || v.Build != d.Build {
		return fmt.Errorf("version line %q", lines[1])
	}
	if lines[2] != "#### "+strings.Join(d.F, ",") {
		return fmt.Errorf("fields line %q", lines[2])
	}
	for i, r := range d.R {
		w := make([]string, len(r.V))
		for k, x := range r.V {
			w[k] = strings.ReplaceAll(x, ",", "_")
		}
		if want := r.C + "\t" + strings.Join(w, ","); lines[3+i] != want {
			return fmt.Errorf("row %d is %q instead of %q", i, clip(lines[3+i], 300), clip(want, 300))
		}
	}
	return nil
}

// span is a range of addresses; IPv4 ones are at ::ffff:0:0/96, as for the
// writer, which joins 255.255.255.255 and ::1:0:0:0.
type span struct {
	lo, hi A
	v6     bool // for gaps
	s      string
}

func at16(a A, v6 bool) A {
	if !v6 {
		a = A{0, 0xffff00000000 | a.lo}
	}
	return a
}

func memipSpans(b []byte) ([]span, error) {
	s := string(b)
	if s == "" {
		return nil, nil
	}
	if !strings.HasSuffix(s, "\n") {
		return nil, fmt.Errorf("the last line is cut")
	}
	var out []span
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		p := strings.SplitN(l, " ", 3)
		if len(p) != 3 {
			return nil, fmt.Errorf("line %d is %q", i, l)
		}
		var x span
		for k, t := range p[:2] {
			var a A
			if u, err := strconv.ParseUint(t, 10, 32); err == nil {
				a = at16(A{0, u}, false)
			} else {
				ip := net.ParseIP(t)
				if ip == nil {
					return nil, fmt.Errorf("line %d is %q", i, l)
				}
				a = at16(addrOf(ip))
			}
			if k == 0 {
				x.lo = a
			} else if x.hi = a; x.hi.less(x.lo) {
				return nil, fmt.Errorf("line %d is %q", i, l)
			}
		}
		x.s = p[2]
		out = append(out, x)
	}
	return out, nil
}

func joinSpans(in []span) []span {
	s := append([]span(nil), in...)
	sort.SliceStable(s, func(i, j int) bool {
		return s[i].lo.less(s[j].lo)
	})
	var out []span
	for _, x := range s {
		if n := len(out); n > 0 && x.lo != (A{}) && out[n-1].hi == x.lo.dec() {
			out[n-1].hi = x.hi
			continue
		}
		x.s = ""
		out = append(out, x)
	}
	return out
}

// memipView is the view of a row without its city: its province, district,
// isp (one of the main ones), country and continent, 默认 where there is none.
func memipView(f, v []string) string {
	s := ""
	for _, k := range []string{"province", "district", "isp", "country", "continent"} {
		x := "默认"
		if i := colOf(f, k); i >= 0 && v[i] != "" && !strings.HasPrefix(v[i], "保留") {
			x = v[i]
		}
		if k == "isp" && x != "电信" && x != "联通" && x != "移动" && x != "默认" {
			x = "其他"
		}
		if k == "continent" && continentNames[x] != "" {
			x = continentNames[x]
		}
		if k == "district" && (s == "-香港" || s == "-澳门" || s == "-台湾") {
			x = "默认"
		}
		s += "-" + x
	}
	return s
}

// checkMemipText compares the addresses, countries and provinces.
func checkMemipText(b []byte, d *DS) error {
	got, err := memipSpans(b)
	if err != nil {
		return err
	}
	var rows []span
	for _, r := range d.R {
		p, _ := parsePfx(r.C)
		rows = append(rows, span{lo: at16(p.lo(), p.v6), hi: at16(p.hi(), p.v6)})
	}
	a, w := fmt.Sprint(joinSpans(got)), fmt.Sprint(joinSpans(rows))
	if a != w {
		return fmt.Errorf("it covers %s instead of %s", clip(a, 400), clip(w, 400))
	}
	for i, r := range d.R {
		for _, x := range got {
			if rows[i].hi.less(x.lo) || x.hi.less(rows[i].lo) {
				continue
			}
			if rows[i].lo.less(x.lo) || x.hi.less(rows[i].hi) {
				return fmt.Errorf("%s is spread over several lines", r.C)
			}
			// neighbours that differ in their city only share a line
			if w := memipView(d.F, r.V); !strings.HasSuffix(x.s, w) {
				return fmt.Errorf("%s must have the view %q, its line is %q", r.C, w, clip(x.s, 300))
			}
		}
	}
	return nil
}

// checkPacked compares a packed file with the dataset, independently of the
// readers under test.
func checkPacked(kind string, b []byte, d *DS) error {
	switch kind {
	case ".ipdb":
		return checkIpdbFile(b, d)
	case ".scan":
		return checkScanText(b, d)
	}
	return checkMemipText(b, d)
}

// maskBuild hides the recorded time of packing.
func maskBuild(kind string, b []byte) string {
	switch kind {
	case ".scan":
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			return string(b[i:])
		}
	case ".ipdb":
		if len(b) >= 4 {
			n := int(binary.BigEndian.Uint32(b))
			if len(b) >= 4+n {
				var meta map[string]any
				if json.Unmarshal(b[4:4+n], &meta) == nil {
					delete(meta, "build")
					j, _ := json.Marshal(meta)
					return string(j) + string(b[4+n:])
				}
			}
		}
	}
	return string(b)
}

// genPackDS makes a dataset that every format can represent.
func genPackDS(r *Rand, kind string, tier string) *DS {
	o := dsOpt{full: r.One(3), special: r.One(3)}
	if o.full {
		o.splits = r.In(1, 3)
	}
	if r.One(12) {
		o.full, o.splits, o.v = true, r.In(20, 60), 1
		if tier == "thorough" && r.One(4) {
			o.splits = r.In(100, 300)
		}
	}
	if kind == ".memip" && r.One(2) {
		o.fields = memipFields
	}
	return genDS(r, o)
}

// packable tells whether the case's dataset is one that must be accepted.
func packable(d *DS) bool {
	if !d.valid() || newModel(d).over {
		return false
	}
	for _, r := range d.R {
		p, _ := parsePfx(r.C)
		if p.v6 && (p.bits == 0 || d.V == 3 && p.has(A{0, 0xffff00000000})) {
			return false
		}
		n := len(r.V) - 1
		for _, v := range r.V {
			if strings.ContainsAny(v, "\t\r\n") {
				return false
			}
			n += len(v)
		}
		if n > 65535 {
			return false
		}
	}
	return true
}

func genWriteFaults(r *Rand, size int) []*simos.Fault {
	var out []*simos.Fault
	n := r.I(0, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		f := &simos.Fault{Op: r.S("create", "write", "write", "write", "write", "close", "close", "sync", "rename", "remove", "stat"), N: r.I(1, 1, 1, 2, 2, 3), Stick: r.One(3)}
		f.Err = r.S("EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EMFILE")
		switch f.Op {
		case "write":
			f.N = r.I(1, 1, 2, 2, 3, 3, 4, 5, r.In(1, 20), r.In(1, 80))
			f.Err = r.S("ENOSPC", "EIO", "EDQUOT")
			if r.One(2) {
				f.Part = r.I(1, 2, 5, 100, r.In(0, size+1))
			}
		case "close":
			f.N = r.I(1, 1, 1, 2)
			f.Err = r.S("EIO", "ENOSPC", "EDQUOT")
		}
		out = append(out, f)
	}
	return out
}

func validFaults(fs []*simos.Fault, ops ...string) bool {
	for _, f := range fs {
		if f == nil || f.N < 1 || f.Part < 0 || f.Err == "" {
			return false
		}
		ok := len(ops) == 0
		for _, o := range ops {
			ok = ok || o == f.Op
		}
		if !ok {
			return false
		}
	}
	return true
}

// dataString renders everything reachable from a dataset.
func dataString(d *inf.IpData) string { return canonData(d, nil) }
