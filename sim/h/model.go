//go:build go1.25

package h

import (
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/inf"
)

// Row of a dataset.
type Row struct {
	C string   `json:"c"`
	V []string `json:"x"`
}

// DS is a dataset as a case describes it.
type DS struct {
	V     int      `json:"v"` // 1: IPv4, 2: IPv6, 3: both
	F     []string `json:"f"`
	R     []Row    `json:"r"`
	Label string   `json:"label,omitempty"`
	Extra []string `json:"extra,omitempty"`
	Share bool     `json:"share,omitempty"` // neighbours with equal values share one slice, as dumpers do
	Wide  bool     `json:"wide,omitempty"`  // 4-byte networks in 16-byte form, as merging does
	Build int64    `json:"build,omitempty"`
	Fat   int      `json:"fat,omitempty"` // bytes appended to the first value of every row
}

func (d *DS) MarshalJSON() ([]byte, error) {
	type plain DS
	c := plain(*d)
	if d.Fat > 0 {
		c.R = append([]Row(nil), d.R...)
		for i, r := range c.R {
			c.R[i].V = cloneStrs(r.V)
			if v := r.V; len(v) > 0 && len(v[0]) >= d.Fat {
				c.R[i].V[0] = v[0][:len(v[0])-d.Fat]
			}
		}
	}
	return json.Marshal(&c)
}

func (d *DS) UnmarshalJSON(b []byte) error {
	type plain DS
	if err := json.Unmarshal(b, (*plain)(d)); err != nil {
		return err
	}
	d.fatten()
	return nil
}

func (d *DS) fatten() {
	if d.Fat < 0 || d.Fat > 65000 {
		d.Fat = 0
	}
	if d.Fat > 0 {
		s := strings.Repeat("=", d.Fat)
		for _, r := range d.R {
			if len(r.V) > 0 {
				r.V[0] += s
			}
		}
	}
}

// Model is the executable reference: sorted disjoint intervals.
type Model struct {
	ds   *DS
	v4   []mrow
	v6   []mrow
	over bool // networks overlap
}

type mrow struct {
	p   Pfx
	row int
}

// valid tells whether the description makes sense at all (shrinking may break it).
func (d *DS) valid() bool {
	if d == nil || d.V < 1 || d.V > 3 || len(d.F) == 0 {
		return false
	}
	seen := map[string]bool{}
	for _, f := range d.F {
		if f == "" || seen[f] {
			return false
		}
		seen[f] = true
	}
	for _, r := range d.R {
		p, ok := parsePfx(r.C)
		if !ok || len(r.V) != len(d.F) {
			return false
		}
		if p.v6 && d.V&2 == 0 || !p.v6 && d.V&1 == 0 {
			return false
		}
	}
	return true
}

func newModel(d *DS) *Model {
	m := &Model{ds: d}
	for i, r := range d.R {
		p, _ := parsePfx(r.C)
		if p.v6 {
			m.v6 = append(m.v6, mrow{p, i})
		} else {
			m.v4 = append(m.v4, mrow{p, i})
		}
	}
	for _, l := range [][]mrow{m.v4, m.v6} {
		sort.SliceStable(l, func(i, j int) bool { return l[i].p.lo().less(l[j].p.lo()) })
		for i := 1; i < len(l); i++ {
			if l[i].p.lo().le(l[i-1].p.hi()) {
				m.over = true
			}
		}
	}
	return m
}

// find returns the row that contains the address.
func (m *Model) find(a A, v6 bool) (mrow, bool) {
	l := m.v4
	if v6 {
		l = m.v6
	}
	i := sort.Search(len(l), func(i int) bool { return a.less(l[i].p.lo()) })
	if i == 0 || !l[i-1].p.has(a) {
		return mrow{}, false
	}
	return l[i-1], true
}

// data builds the IpData handed to the code under test.
func (d *DS) data() *inf.IpData {
	r := &inf.IpData{
		Fields: cloneStrs(d.F),
		Version: &inf.VersionInfo{IpType: inf.IpType(d.V), Count: uint32(len(d.R)), Build: d.Build,
			Version: d.Label, ExtraInfo: cloneStrs(d.Extra)},
	}
	var prev []string
	for _, row := range d.R {
		p, _ := parsePfx(row.C)
		v := cloneStrs(row.V)
		if d.Share && eqStrs(prev, v) {
			v = prev
		}
		prev = v
		r.Ips = append(r.Ips, inf.IpRaw{Cidr: p.ipNet(d.Wide), FieldValues: v})
	}
	return r
}

var continentNames = map[string]string{"AS": "亚洲", "EU": "欧洲", "NA": "北美洲", "SA": "南美洲", "AF": "非洲", "OC": "大洋洲", "AN": "南极洲"}

// info is the answer an ipdb database must give for a row.
func (d *DS) info(row int) *inf.IpInfo { return infoOf(d.F, d.R[row].V) }

func infoOf(fields, v []string) *inf.IpInfo {
	var r inf.IpInfo
	for i, f := range fields {
		switch f {
		case "country":
			r.Country = v[i]
		case "province":
			r.Province = v[i]
		case "city":
			r.City = v[i]
		case "isp":
			r.Isp = v[i]
		case "asn":
			r.Asn = v[i]
		case "continent":
			r.Continent = v[i]
			if n, ok := continentNames[v[i]]; ok {
				r.Continent = n
			}
		case "line":
			r.Line = v[i]
		case "district":
			r.District = v[i]
		}
	}
	return &r
}

// probes returns addresses that tell the rows apart: first and last address of
// each network, their neighbours, some inside, and fixed ones.
func (m *Model) probes(r *Rand, max int) []net.IP {
	var out []net.IP
	add := func(a A, v6 bool) {
		if v6 {
			if b := a.bytes(true); isMapped(b) {
				return
			}
		}
		out = append(out, a.IP(v6, r.One(2)))
	}
	for _, l := range [][]mrow{m.v4, m.v6} {
		for _, x := range l {
			lo, hi := x.p.lo(), x.p.hi()
			w := width(x.p.v6)
			add(lo, x.p.v6)
			add(hi, x.p.v6)
			if (lo != A{}) {
				add(lo.dec(), x.p.v6)
			}
			if hi != low(w) {
				add(hi.inc(), x.p.v6)
			}
			in := lo.or(A{r.U64(), r.U64()}.and(low(w - x.p.bits)))
			add(in, x.p.v6)
		}
	}
	for _, s := range []string{"0.0.0.0", "255.255.255.255", "8.8.8.8", "127.0.0.1", "111.192.0.0", "101.80.0.0", "10.0.0.0", "30.0.0.0",
		"::", "::1", "2001:4860:4860::8888", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "8000::"} {
		a, v6, _ := parseA(s)
		add(a, v6)
	}
	for len(out) > max {
		i := r.N(len(out))
		out[i] = out[len(out)-1]
		out = out[:len(out)-1]
	}
	return out
}

func isMapped(b []byte) bool {
	for i := 0; i < 10; i++ {
		if b[i] != 0 {
			return false
		}
	}
	return b[10] == 0xff && b[11] == 0xff
}

// ---- generation ----

var warm = []string{"111.192.0.0", "101.80.0.0", "10.0.0.0", "117.8.0.0", "120.244.0.0", "30.0.0.0", "126.0.0.0", "223.104.103.0", "1.180.0.0", "99.224.0.0"}

var depth4 = []int{1, 7, 8, 9, 12, 13, 14, 15, 16, 17, 20, 23, 24, 25, 30, 31, 32}
var depth6 = []int{1, 3, 4, 13, 14, 15, 16, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 127, 128}

func genAddr(r *Rand, v6 bool) A {
	if !v6 {
		switch r.N(8) {
		case 0:
			return A{}
		case 1:
			return A{0, 0xffffffff}
		case 2, 3:
			a, _, _ := parseA(warm[r.N(len(warm))])
			return a
		case 4:
			return A{0, 0x08080808}
		}
		return A{0, r.U64() & 0xffffffff}
	}
	switch r.N(8) {
	case 0:
		return A{}
	case 1:
		return low(128)
	case 2, 3:
		return A{0x2001<<48 | r.U64()>>16, r.U64()}
	case 4:
		return A{0x2001486048600000, 0x8888}
	}
	return A{r.U64(), r.U64()}
}

// genNets partitions the address space (or, with full=false, part of it).
func genNets(r *Rand, v6, full bool, splits int) []Pfx {
	w := width(v6)
	leaves := []Pfx{{A{}, 0, v6}}
	for k := 0; k < splits; k++ {
		a := genAddr(r, v6)
		if r.One(3) && len(leaves) > 1 { // near an existing boundary
			l := leaves[r.N(len(leaves))]
			a = l.lo()
			if r.One(2) {
				a = l.hi()
			}
		}
		if v6 && isMapped(a.bytes(true)) {
			continue
		}
		var d int
		if v6 {
			d = depth6[r.N(len(depth6))]
			if full && d > 64 && r.N(4) > 0 {
				d = 48
			}
		} else {
			d = depth4[r.N(len(depth4))]
		}
		for i, l := range leaves {
			if !l.has(a) {
				continue
			}
			if l.bits >= d {
				break
			}
			leaves[i] = leaves[len(leaves)-1]
			leaves = leaves[:len(leaves)-1]
			p := l
			for p.bits < d {
				b := a.bit(p.bits, w)
				leaves = append(leaves, Pfx{p.lo().setBit(p.bits, w, 1-b), p.bits + 1, v6})
				p = Pfx{p.lo().setBit(p.bits, w, b), p.bits + 1, v6}
			}
			leaves = append(leaves, p)
			break
		}
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].lo().less(leaves[j].lo()) })
	if full {
		return leaves
	}
	keep := []float64{1, 0.9, 0.6, 0.3, 0.1}[r.N(5)]
	var out []Pfx
	for _, l := range leaves {
		if r.P(keep) {
			out = append(out, l)
		}
	}
	return out
}

var vocab = map[string][]string{
	"country":   {"中国", "中国", "中国", "美国", "日本", "", "保留"},
	"province":  {"北京市", "北京", "广东", "台湾", "中国台湾", "香港", "上海市", "", "内蒙古自治区", "新疆", "California"},
	"city":      {"上海市", "杭州", "三亚市", "", "Los Angeles", "延边朝鲜族自治州"},
	"isp":       {"中国电信", "电信", "联通", "移动", "铁通", "中国铁通", "小运营商", "歌华有线", "", "Google, Inc.", "China Mobile"},
	"asn":       {"4134", "4837", "9808", "9394", "15169", "64512", "", "4134,4837"},
	"continent": {"亚洲", "亚洲", "AS", "欧洲", "NA", "大洋洲", "", "Asia", "非洲", "南极洲", "南美洲", "AN", "SA", "AF", "OC", "EU", "北美洲"},
	"line":      {"电信", "联通/电信", "移动", "铁通", "阿里云", "", "教育网/电信"},
	"district":  {"华东", "华南", "", "东北"},
}

var commonFields = []string{"country", "province", "city", "isp", "asn", "continent", "line", "district"}

func genValue(r *Rand, f string, special bool) string {
	if special && r.One(12) {
		switch r.N(5) {
		case 0:
			return strings.Repeat("长", r.In(20, 120))
		case 1:
			return "a,b,,c"
		case 2:
			return "x \"y\" \\z"
		case 3:
			return " "
		case 4:
			return strings.Repeat("v", r.In(200, 2000))
		}
	}
	if v, ok := vocab[f]; ok {
		return v[r.N(len(v))]
	}
	return r.S("", "1", "29.99", "UTC+8", "x-y", "值")
}

func genFields(r *Rand) []string {
	switch r.N(4) {
	case 0:
		return []string{"country", "province", "city", "isp", "asn", "continent", "district"}
	case 1:
		return []string{commonFields[r.N(len(commonFields))]}
	}
	fs := append([]string{}, commonFields...)
	fs = append(fs, "utcOffset", "latitude", "zone")
	for i := len(fs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		fs[i], fs[j] = fs[j], fs[i]
	}
	return fs[:r.In(1, len(fs))]
}

type dsOpt struct {
	full    bool // cover the whole range
	fields  []string
	v       int // 0: any
	special bool
	splits  int  // 0: random
	bulk    bool // one large record
	big     bool // thousands of networks
	noCodes bool // no two-letter continent codes
	unique  bool // tag rows so that every row is attributable
}

// genBig makes a dataset of so many scattered networks that numbers of nodes
// and offsets of records leave 16 bits.
func genBig(r *Rand, o dsOpt) *DS {
	d := &DS{V: r.I(2, 2, 2, 1), F: genFields(r), Share: r.One(2), Build: 1600000000}
	if o.v == 1 || o.v == 2 {
		d.V = o.v
	}
	if o.fields != nil {
		d.F = o.fields
	}
	v6 := d.V == 2
	n := r.In(1200, 1700)
	if !v6 {
		n = r.In(2000, 5000)
	}
	m := map[string]bool{}
	var ps []Pfx
	for i := 0; i < n; i++ {
		p := Pfx{A{r.U64(), r.U64()}, 64, true}
		if !v6 {
			p = Pfx{A{0, r.U64() & 0xffffffff}, 32, false}
		}
		p.a = p.lo()
		if m[p.String()] || v6 && isMapped(p.a.bytes(true)) {
			continue
		}
		m[p.String()] = true
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].lo().less(ps[j].lo()) })
	tag := "p" + strings.Repeat("x", r.I(0, 10, 60))
	for i, p := range ps {
		v := make([]string, len(d.F))
		for k, f := range d.F {
			v[k] = vocabOr(f, i*7+k)
		}
		v[i%len(v)] = fmt.Sprintf("%s%d", tag, i)
		d.R = append(d.R, Row{p.String(), v})
	}
	return d
}

func vocabOr(f string, k int) string {
	v, ok := vocab[f]
	if !ok {
		return ""
	}
	s := v[k%len(v)]
	if f == "continent" && continentNames[s] != "" {
		return "亚洲"
	}
	return s
}

// collisions are pairs of equal CRC-32, CRC-32 again, FNV-1a, FNV-1, times 31,
// times 33, Adler-32 and sum.
var collisions = [][2]string{
	{"plumless", "buckeroo"}, {"codding", "gnu"}, {"costarring", "liquid"}, {"declinate", "macallums"},
	{"creamwove", "quists"}, {"Aa", "BB"}, {"Aa", "B@"}, {"bab", "aca"}, {"ab", "ba"},
}

// shift gives neighbouring rows values that differ only in where one value
// ends and the next begins, in case, in white space, or in the order.
func (d *DS) shift(r *Rand, o dsOpt) {
	for k := r.In(1, 3); k > 0 && len(d.R) > 1; k-- {
		i := r.N(len(d.R) - 1)
		j := i + 1
		if r.One(4) {
			j = r.N(len(d.R))
		}
		v := cloneStrs(d.R[i].V)
		a := r.N(len(v))
		b := (a + 1) % len(v)
		switch r.N(8) {
		case 6, 7: // what common checksums cannot tell apart
			p := collisions[r.N(len(collisions))]
			u := cloneStrs(v)
			a := 0
			if r.One(3) {
				a = r.N(len(v))
			}
			if d.F[a] == "continent" {
				break
			}
			u[a], v[a] = p[0], p[1]
			d.R[i].V = u
		case 0, 1, 2:
			s := []rune(v[a])
			if b < a || len(s) == 0 {
				v[a], v[b] = v[b], v[a]
				break
			}
			n := r.N(len(s))
			v[a], v[b] = string(s[:n]), string(s[n:])+v[b]
		case 3:
			v[a] = strings.ToLower(v[a])
			if v[a] == d.R[i].V[a] {
				v[a] += "x"
				d.R[i].V[a] += "X"
			}
		case 4:
			v[a] += " "
		case 5:
			v[a], v[b] = v[b], v[a]
		}
		for x, f := range d.F {
			if o.noCodes && f == "continent" && continentNames[v[x]] != "" {
				v[x] = "亚洲"
			}
		}
		d.R[j].V = v
	}
}

// bulk makes one record as large as a file format just can hold (65535 bytes
// with the separators), or of a size where a narrower number would overflow.
// With over it may be larger than an ipdb file can hold.
func (d *DS) bulk(r *Rand, over bool) {
	if len(d.R) == 0 {
		return
	}
	v := d.R[r.N(len(d.R))].V
	k := r.N(len(v))
	size := len(v) - 1
	for i, s := range v {
		if i != k {
			size += len(s)
		}
	}
	n := r.I(65535, 65535, 65534, 65533, 32768, 32767, 32769, 40000, 255, 256, 257, r.In(60000, 65535))
	if over && r.One(2) {
		n = r.I(65536, 65537, 65820, 65821, 65822, 65900, 70000, 131072, r.In(65536, 140000))
	}
	n -= size
	if n < 0 {
		n = 0
	}
	v[k] = strings.Repeat("b", n)
}

func genDS(r *Rand, o dsOpt) *DS {
	if o.big {
		return genBig(r, o)
	}
	d := &DS{V: o.v, F: o.fields}
	if d.V == 0 {
		d.V = []int{1, 1, 1, 2, 2, 3}[r.N(6)]
	}
	if d.F == nil {
		d.F = genFields(r)
	}
	splits := func() int {
		if o.splits > 0 {
			return o.splits
		}
		return []int{0, 1, 2, 3, 5, 8, 12}[r.N(7)]
	}
	var nets []Pfx
	if d.V&1 != 0 {
		nets = append(nets, genNets(r, false, o.full, splits())...)
	}
	if d.V&2 != 0 {
		n6 := genNets(r, true, o.full, splits())
		if d.V == 3 {
			// the IPv4 subtree lives under ::ffff:0:0/96: keep clear of it
			var k []Pfx
			for _, p := range n6 {
				if !p.has(A{0, 0xffff00000000}) {
					k = append(k, p)
				}
			}
			n6 = k
		} else if !o.full {
			var k []Pfx
			for _, p := range n6 {
				if p.bits > 0 {
					k = append(k, p)
				}
			}
			n6 = k
		}
		if len(n6) == 1 && n6[0].bits == 0 { // the harness's writers need a bit
			n6 = []Pfx{{A{}, 1, true}, {A{1 << 63, 0}, 1, true}}
		}
		nets = append(nets, n6...)
	}
	if len(nets) > 60 && !o.full {
		for len(nets) > 60 {
			i := r.N(len(nets))
			nets = append(nets[:i], nets[i+1:]...)
		}
	}
	pool := r.In(1, 6)
	var vals [][]string
	for i := 0; i < pool; i++ {
		var v []string
		for _, f := range d.F {
			x := genValue(r, f, o.special)
			if o.noCodes && f == "continent" && continentNames[x] != "" {
				x = "亚洲"
			}
			v = append(v, x)
		}
		vals = append(vals, v)
	}
	k := 0
	for i, p := range nets {
		if r.N(3) > 0 {
			k = r.N(pool)
		}
		v := cloneStrs(vals[k])
		if o.unique {
			j := r.N(len(v))
			v[j] = fmt.Sprintf("%s#%d", v[j], i)
		}
		d.R = append(d.R, Row{p.String(), v})
	}
	if !o.unique && r.One(6) {
		d.shift(r, o)
	}
	d.Share = r.One(2)
	d.Wide = r.One(3)
	switch r.N(3) {
	case 0:
		d.Label = "v-" + r.S("1", "2024-01-01", "测试")
	}
	if r.One(3) {
		d.Extra = []string{"line-1"}
		if r.One(2) {
			d.Extra = append(d.Extra, "x 2")
		}
	}
	if r.One(2) {
		d.Build = int64(1600000000 + r.N(1<<27))
	}
	return d
}

// genFat makes a dataset of more than 16 MB: records at offsets of four bytes.
func genFat(r *Rand) *DS {
	d := &DS{V: 1, F: []string{"country", "city", "isp"}, Fat: r.In(60000, 64900)}
	n := 0
	row := func(c string) {
		n++
		d.R = append(d.R, Row{C: c, V: []string{fmt.Sprint("c", n), fmt.Sprint("t", n%7), "i"}})
	}
	if r.One(4) { // more than 64 MB
		for i := 0; i < 1120; i++ {
			row(fmt.Sprintf("%d.%d.0.0/16", i/100, i%100))
		}
		d.fatten()
		return d
	}
	cut := r.N(256)
	for i := 0; i < 256; i++ {
		if (i-cut+256)%256 >= 50 {
			row(fmt.Sprintf("%d.0.0.0/8", i))
			continue
		}
		row(fmt.Sprintf("%d.0.0.0/9", i))
		row(fmt.Sprintf("%d.128.0.0/9", i))
	}
	d.fatten()
	return d
}
