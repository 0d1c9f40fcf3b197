//go:build go1.25

package h

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// trie maps prefixes to values; used by the harness's own database writers,
// which share no code with the code under test.
type trie struct {
	kid  [][2]int // >0 node, <0 leaf -(value+1), 0 empty
	w    int
	leaf int
}

func newTrie(w int) *trie { return &trie{kid: make([][2]int, 1), w: w} }

// put stores value v at the prefix; the network must be at least one bit long.
func (t *trie) put(a A, bits, v int) {
	n := 0
	for i := 0; i < bits-1; i++ {
		b := a.bit(i, t.w)
		if t.kid[n][b] <= 0 {
			t.kid = append(t.kid, [2]int{})
			t.kid[n][b] = len(t.kid) - 1
		}
		n = t.kid[n][b]
	}
	t.kid[n][a.bit(bits-1, t.w)] = -(v + 1)
}

// mapped is the place of a version 4 network in a version 6 tree.
func mapped(p Pfx, prefix A) (A, int) {
	return prefix.or(A{0, p.lo().lo}), p.bits + 96
}

// Link is a damage of the search tree: a child of the nodes N..M gets another value.
type Link struct {
	N int    `json:"n"`
	M int    `json:"m,omitempty"`
	B int    `json:"b,omitempty"` // 0 left, 1 right, 2 both
	T int64  `json:"t"`
	K string `json:"k,omitempty"` // "rel": relative to the node; "end": to the node count
}

func applyLinks(kid [][2]uint32, n int, ls []Link) {
	for _, l := range ls {
		for i := l.N; i <= l.M || i == l.N; i++ {
			if i < 0 || i >= len(kid) {
				break
			}
			t := l.T
			switch l.K {
			case "rel":
				t += int64(i)
			case "end":
				t += int64(n)
			}
			if l.B != 1 {
				kid[i][0] = uint32(t)
			}
			if l.B != 0 {
				kid[i][1] = uint32(t)
			}
		}
	}
}

func genLinks(r *Rand, n int) []Link {
	if n < 2 {
		n = 2
	}
	if r.One(3) { // every address has its way, and there are too many ways
		a := r.N(n - 1)
		if r.One(2) {
			a = 0
		}
		return []Link{{N: a, M: n - 1 - r.N(2), B: 2, T: 1, K: "rel"}}
	}
	var out []Link
	for k := r.In(1, 3); k > 0; k-- {
		l := Link{N: r.N(n), B: r.N(3)}
		switch r.N(6) {
		case 0:
			l.T = int64(r.N(n))
		case 1:
			l.K, l.T = "rel", int64(r.I(0, 1, -1, 2))
		case 2:
			l.K, l.T = "end", int64(r.I(0, 1, -1, 7, 8, 9, 15, 16, 17, r.N(4000)))
		case 3:
			l.M = l.N + r.N(10)
			l.K, l.T = "rel", int64(r.I(0, 1, -1))
		case 4:
			l.T = []int64{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffff, 0xfffffff}[r.N(7)]
		case 5:
			l.M = l.N + r.N(200)
			l.T = int64(r.N(n))
		}
		out = append(out, l)
	}
	return out
}

// fold stores equal subtrees once; the nodes that remain are renumbered.
func (t *trie) fold() {
	seen := map[[2]int]int{}
	var kid [][2]int
	var walk func(n int) int
	walk = func(n int) int {
		k := t.kid[n]
		for b := range k {
			if k[b] > 0 {
				k[b] = walk(k[b])
			}
		}
		if at, ok := seen[k]; ok && n != 0 {
			return at
		}
		kid = append(kid, k)
		if n != 0 {
			seen[k] = len(kid)
		}
		return len(kid)
	}
	// children come first; turn the order round so that the root is node 0
	walk(0)
	n := len(kid)
	for i := range kid {
		for b := range kid[i] {
			if kid[i][b] > 0 {
				kid[i][b] = n - kid[i][b]
			}
		}
	}
	for i := 0; i < n/2; i++ {
		kid[i], kid[n-1-i] = kid[n-1-i], kid[i]
	}
	t.kid = kid
}

// vals replaces the leaves' values.
func (t *trie) vals(v []int) {
	for i := range t.kid {
		for b, x := range t.kid[i] {
			if x < 0 {
				t.kid[i][b] = -(v[-x-1] + 1)
			}
		}
	}
}

// kids are the values of the nodes; leaf gives that of a leaf.
func (t *trie) kids(leaf func(v int) uint32) [][2]uint32 {
	out := make([][2]uint32, len(t.kid))
	for i, k := range t.kid {
		for b, x := range k {
			switch {
			case x > 0:
				out[i][b] = uint32(x)
			case x == 0:
				out[i][b] = uint32(len(t.kid))
			default:
				out[i][b] = leaf(-x - 1)
			}
		}
	}
	return out
}

// IpdbOpt are the liberties of the ipdb format.
type IpdbOpt struct {
	Lang int  `json:"lang,omitempty"` // 0: CN only; 1: CN second; 2: CN first of two
	Pad  bool `json:"pad,omitempty"`  // records carry surplus columns

	Dag   bool   `json:"dag,omitempty"`   // equal subtrees are stored once
	Links []Link `json:"links,omitempty"` // damaged nodes

	// Meta overrides values of the metadata, as raw JSON ("" removes the key).
	Meta map[string]string `json:"meta,omitempty"`
}

var ipdbNames = map[string]string{"country": "country_name", "province": "region_name", "city": "city_name", "isp": "isp_domain",
	"continent": "continent_code", "utcOffset": "utc_offset", "latitude": "latitude"}

// writeIpdb encodes a dataset as an ipdb file, independently of the packer.
func writeIpdb(d *DS, o IpdbOpt) []byte {
	t := newTrie(128)
	var data bytes.Buffer
	off := map[string]int{}
	var vals []int
	for _, r := range d.R {
		cols := cloneStrs(r.V)
		switch o.Lang {
		case 1:
			cols = append(make([]string, len(d.F)), cols...)
		case 2:
			cols = append(cols, make([]string, len(d.F))...)
		}
		if o.Pad {
			cols = append(cols, "pad", "")
		}
		s := strings.Join(cols, "\t")
		at, ok := off[s]
		if !ok {
			at = data.Len()
			off[s] = at
			binary.Write(&data, binary.BigEndian, uint16(len(s)))
			data.WriteString(s)
		}
		vals = append(vals, at)
		p, _ := parsePfx(r.C)
		a, b := p.lo(), p.bits
		if !p.v6 {
			a, b = mapped(p, A{0, 0xffff00000000})
		}
		t.put(a, b, len(vals)-1)
	}
	t.vals(vals)
	if o.Dag {
		t.fold()
	}
	n := len(t.kid)
	kids := t.kids(func(v int) uint32 { return uint32(n + 8 + v) })
	applyLinks(kids, n, o.Links)
	var nodes bytes.Buffer
	for _, k := range kids {
		binary.Write(&nodes, binary.BigEndian, k[0])
		binary.Write(&nodes, binary.BigEndian, k[1])
	}
	binary.Write(&nodes, binary.BigEndian, uint32(n))
	binary.Write(&nodes, binary.BigEndian, uint32(n))
	langs := map[string]int{"CN": 0}
	switch o.Lang {
	case 1:
		langs = map[string]int{"EN": 0, "CN": len(d.F)}
	case 2:
		langs = map[string]int{"CN": 0, "EN": len(d.F)}
	}
	fs := make([]string, len(d.F))
	for i, f := range d.F {
		fs[i] = f
		if n, ok := ipdbNames[f]; ok {
			fs[i] = n
		}
	}
	mm := map[string]any{"build": d.Build, "ip_version": d.V, "languages": langs, "node_count": n,
		"total_size": nodes.Len() + data.Len(), "fields": fs, "version": d.Label, "extra": d.Extra}
	for k, v := range o.Meta {
		if v == "" {
			delete(mm, k)
		} else if json.Valid([]byte(v)) {
			mm[k] = json.RawMessage(v)
		}
	}
	meta, _ := json.Marshal(mm)
	var out bytes.Buffer
	binary.Write(&out, binary.BigEndian, uint32(len(meta)))
	out.Write(meta)
	out.Write(nodes.Bytes())
	out.Write(data.Bytes())
	return out.Bytes()
}

// AwOpt are the liberties of the awdb format.
type AwOpt struct {
	Rec    int  `json:"rec"`             // record size: 24, 28, 32
	KeyPtr bool `json:"kptr,omitempty"`  // keys by pointer
	ValPtr bool `json:"vptr,omitempty"`  // repeated values by pointer
	Bytes  bool `json:"bytes,omitempty"` // values as byte strings
	Extra  bool `json:"xtra,omitempty"`  // additional keys of other kinds before the known ones
	Pad    int  `json:"pad,omitempty"`   // unused bytes in the data section
	LPtr   bool `json:"lptr,omitempty"`  // records that are pointers to maps

	Dag bool `json:"dag,omitempty"` // equal subtrees are stored once
	Mix int  `json:"mix,omitempty"` // values of other types under keys nobody knows

	// what a damaged or foreign file may say
	Nodes *uint64 `json:"nodes,omitempty"` // node count in the metadata
	RecSz *uint64 `json:"recsz,omitempty"` // record size in the metadata
	Ver   *uint64 `json:"ver,omitempty"`   // address family in the metadata
	Typ   *int    `json:"typ,omitempty"`   // type of these numbers
	Links []Link  `json:"links,omitempty"` // damaged nodes
	Raw   []byte  `json:"raw,omitempty"`   // the records are arbitrary bytes
	Top   []int   `json:"top,omitempty"`   // where among these bytes records begin
	MRaw  []byte  `json:"mraw,omitempty"`  // the metadata is arbitrary bytes
}

var awNames = map[string]string{"asn": "asnumber"}

type awenc struct {
	b    bytes.Buffer
	ptr  map[string]int
	wide bool // far pointers in the longest form
}

func (e *awenc) ctrl(typ, size int) {
	var c byte
	var ext []byte
	switch {
	case size < 29:
		c = byte(size)
	case size < 285:
		c, ext = 29, []byte{byte(size - 29)}
	case size < 65821:
		s := size - 285
		c, ext = 30, []byte{byte(s >> 8), byte(s)}
	default:
		s := size - 65821
		c, ext = 31, []byte{byte(s >> 16), byte(s >> 8), byte(s)}
	}
	if typ > 7 {
		e.b.WriteByte(c)
		e.b.WriteByte(byte(typ - 7))
	} else {
		e.b.WriteByte(byte(typ<<5) | c)
	}
	e.b.Write(ext)
}

func (e *awenc) pointer(off int) {
	switch {
	case off < 2048:
		e.b.Write([]byte{1<<5 | byte(off>>8), byte(off)})
	case off < 526336:
		o := off - 2048
		e.b.Write([]byte{1<<5 | 1<<3 | byte(o>>16), byte(o >> 8), byte(o)})
	case off < 1<<27 && !e.wide:
		o := off - 526336
		e.b.Write([]byte{1<<5 | 2<<3 | byte(o>>24), byte(o >> 16), byte(o >> 8), byte(o)})
	default:
		e.b.Write([]byte{1<<5 | 3<<3, byte(off >> 24), byte(off >> 16), byte(off >> 8), byte(off)})
	}
}

func (e *awenc) str(s string, typ int, share bool) {
	k := fmt.Sprintf("%d%s", typ, s)
	if at, ok := e.ptr[k]; ok && share {
		e.pointer(at)
		return
	}
	e.ptr[k] = e.b.Len()
	e.ctrl(typ, len(s))
	e.b.WriteString(s)
}

func (e *awenc) num(typ int, v uint64) {
	var b []byte
	for v > 0 {
		b = append([]byte{byte(v)}, b...)
		v >>= 8
	}
	e.ctrl(typ, len(b))
	e.b.Write(b)
}

// val writes a value.
func (e *awenc) val(v av) {
	switch v.typ {
	case 2, 4:
		e.ctrl(v.typ, len(v.s))
		e.b.WriteString(v.s)
	case 3:
		e.ctrl(3, 8)
		binary.Write(&e.b, binary.BigEndian, v.f)
	case 15:
		e.ctrl(15, 4)
		binary.Write(&e.b, binary.BigEndian, float32(v.f))
	case 5, 6, 9:
		e.num(v.typ, v.u)
	case 10: // a number of up to 128 bits
		b := A{v.u, v.u}.bytes(true)
		for len(b) > 0 && b[0] == 0 {
			b = b[1:]
		}
		e.ctrl(10, len(b))
		e.b.Write(b)
	case 8:
		e.ctrl(8, 4)
		binary.Write(&e.b, binary.BigEndian, uint32(v.u))
	case 14:
		e.ctrl(14, int(v.u))
	case 11:
		e.ctrl(11, len(v.list))
		for _, x := range v.list {
			e.val(x)
		}
	case 7:
		e.ctrl(7, len(v.keys))
		for i, k := range v.keys {
			e.val(av{typ: 2, s: k})
			e.val(v.list[i])
		}
	}
}

// av is a value of an awdb record, by the type numbers of the format.
type av struct {
	typ  int
	s    string
	u    uint64
	f    float64
	keys []string
	list []av
}

// get is the value of a key of a map.
func (v av) get(key string) (av, bool) {
	for i, k := range v.keys {
		if k == key {
			return v.list[i], true
		}
	}
	return av{}, false
}

// otherValue is the k-th value that is no text.
func otherValue(k int) av {
	txt := func(s string) av { return av{typ: 2, s: s} }
	u := uint64(k)
	switch k % 12 {
	case 0:
		return av{typ: 6, u: u * 7919}
	case 1:
		return av{typ: 5, u: u & 0xffff}
	case 2:
		return av{typ: 9, u: u << 33}
	case 3:
		return av{typ: 3, f: 3.14159 * float64(k)}
	case 4:
		return av{typ: 15, f: float64(float32(2.7182 * float64(k)))}
	case 5:
		return av{typ: 14, u: u / 12 % 2}
	case 6:
		return av{typ: 11, list: []av{txt("a"), {typ: 6, u: u}, {typ: 11}}}
	case 7:
		return av{typ: 7, keys: []string{"country", "isp"}, list: []av{txt("nested"), {typ: 14, u: 1}}}
	case 8:
		return av{typ: 8, u: 0xffffff00 | u&0xff}
	case 9:
		return av{typ: 10, u: u<<40 | 5}
	case 10:
		m := func(k, v, k2, v2 string) av { return av{typ: 7, keys: []string{k, k2}, list: []av{txt(v), txt(v2)}} }
		return av{typ: 7, keys: []string{"a", "b", "c"}, list: []av{m("x", "1", "y", "2"), m("y", "3", "z", fmt.Sprint(k)), m("x", "", "w", "4")}}
	default:
		return av{typ: 11, list: []av{{typ: 5, u: u & 0xff}, {typ: 6, u: u}, {typ: 9, u: ^u}}}
	}
}

// awRecords are the records writeAwdb stores, one per row.
func awRecords(d *DS, o AwOpt) []av {
	seen := map[string]int{}
	var out []av
	for i, r := range d.R {
		key := strings.Join(r.V, "\x00")
		if at, ok := seen[key]; ok {
			out = append(out, out[at])
			continue
		}
		seen[key] = i
		m := av{typ: 7}
		put := func(k string, v av) {
			m.keys = append(m.keys, k)
			m.list = append(m.list, v)
		}
		if o.Extra {
			put("aaa_num", av{typ: 2, s: "17"})
			put("accuracy", av{typ: 2, s: "城市"})
			put("zz", av{typ: 2})
		}
		for k := 0; k < o.Mix; k++ {
			put(fmt.Sprintf("mix%d", k), otherValue(i+k))
		}
		for k, f := range d.F {
			name := f
			if n, ok := awNames[f]; ok {
				name = n
			}
			typ := 2
			if o.Bytes {
				typ = 4
			}
			put(name, av{typ: typ, s: r.V[k]})
		}
		out = append(out, m)
	}
	return out
}

// writeAwdb encodes a dataset (IPv4 or IPv6) as an awdb file.
func writeAwdb(d *DS, o AwOpt) []byte {
	w := 32
	ver := uint64(4)
	if d.V == 2 {
		w, ver = 128, 6
	}
	t := newTrie(w)
	e := &awenc{ptr: map[string]int{}, wide: o.Extra}
	e.b.Write(o.Raw)
	if o.Pad > 0 {
		e.b.Write(bytes.Repeat([]byte{0x42}, o.Pad))
	}
	recs := map[string]int{}
	var offs []int
	for i, r := range d.R {
		key := strings.Join(r.V, "\x00")
		at, ok := recs[key]
		if len(o.Raw) > 0 && i%4 > 0 {
			at, ok = i*5%len(o.Raw), true
			if len(o.Top) > 0 {
				at = o.Top[i%len(o.Top)]
			}
		}
		if !ok {
			mapAt := e.b.Len()
			n := len(d.F)
			if o.Extra {
				n += 3
			}
			n += o.Mix
			e.ctrl(7, n)
			if o.Extra {
				e.str("aaa_num", 2, o.KeyPtr)
				e.str("17", 2, o.ValPtr)
				e.str("accuracy", 2, o.KeyPtr)
				e.str("城市", 2, o.ValPtr)
				e.str("zz", 2, o.KeyPtr)
				e.str("", 2, o.ValPtr)
			}
			for k := 0; k < o.Mix; k++ {
				e.str(fmt.Sprintf("mix%d", k), 2, o.KeyPtr)
				e.val(otherValue(i + k))
			}
			for i, f := range d.F {
				name := f
				if n, ok := awNames[f]; ok {
					name = n
				}
				e.str(name, 2, o.KeyPtr)
				typ := 2
				if o.Bytes {
					typ = 4
				}
				e.str(r.V[i], typ, o.ValPtr)
			}
			at = mapAt
			if o.LPtr {
				at = e.b.Len()
				e.pointer(mapAt)
			}
			recs[key] = at
		}
		offs = append(offs, at)
		p, _ := parsePfx(r.C)
		if p.bits == 0 { // the whole range: two halves
			t.put(p.lo(), 1, len(offs)-1)
			t.put(p.lo().setBit(0, w, 1), 1, len(offs)-1)
			continue
		}
		t.put(p.lo(), p.bits, len(offs)-1)
	}
	t.vals(offs)
	if o.Dag {
		t.fold()
	}
	n := len(t.kid)
	kids := t.kids(func(v int) uint32 { return uint32(n + 16 + v) })
	applyLinks(kids, n, o.Links)
	var out bytes.Buffer
	for _, k := range kids {
		l, r := k[0], k[1]
		switch o.Rec {
		case 24:
			out.Write([]byte{byte(l >> 16), byte(l >> 8), byte(l), byte(r >> 16), byte(r >> 8), byte(r)})
		case 28:
			out.Write([]byte{byte(l >> 16), byte(l >> 8), byte(l), byte(l>>24)<<4 | byte(r>>24)&0xf, byte(r >> 16), byte(r >> 8), byte(r)})
		default:
			binary.Write(&out, binary.BigEndian, l)
			binary.Write(&out, binary.BigEndian, r)
		}
	}
	out.Write(make([]byte, 16))
	out.Write(e.b.Bytes())
	out.WriteString("\xAB\xCD\xEFipplus360.com")
	if len(o.MRaw) > 0 {
		out.Write(o.MRaw)
		return out.Bytes()
	}
	nodes, recsz, t5, t6 := uint64(n), uint64(o.Rec), 5, 6
	if o.Nodes != nil {
		nodes = *o.Nodes
	}
	if o.RecSz != nil {
		recsz = *o.RecSz
	}
	if o.Ver != nil {
		ver = *o.Ver
	}
	if o.Typ != nil {
		t5, t6 = *o.Typ, *o.Typ
	}
	m := &awenc{ptr: map[string]int{}}
	m.ctrl(7, 9)
	m.str("binary_format_major_version", 2, false)
	m.num(5, 2)
	m.str("binary_format_minor_version", 2, false)
	m.num(5, 0)
	m.str("build_epoch", 2, false)
	m.num(9, uint64(d.Build))
	m.str("database_type", 2, false)
	m.str(d.Label, 2, false)
	m.str("description", 2, false)
	m.ctrl(7, 1)
	m.str("en", 2, false)
	m.str("simulated", 2, false)
	m.str("ip_version", 2, false)
	m.num(t5, ver)
	m.str("languages", 2, false)
	m.ctrl(11, 2)
	m.str("CN", 2, false)
	m.str("EN", 2, false)
	m.str("node_count", 2, false)
	m.num(t6, nodes)
	m.str("record_size", 2, false)
	m.num(t5, recsz)
	out.Write(m.b.Bytes())
	return out.Bytes()
}

func genIpdbOpt(r *Rand) IpdbOpt {
	return IpdbOpt{Lang: r.N(3), Pad: r.One(3), Dag: r.One(4)}
}

func genAwOpt(r *Rand) AwOpt {
	o := AwOpt{Rec: r.I(24, 28, 32), KeyPtr: r.One(2), ValPtr: r.One(2), Bytes: r.One(4), Extra: r.One(3), LPtr: r.One(5)}
	// the reader looks for the metadata in the last 2000 bytes
	o.Pad = r.I(0, 0, 100, 2000, 2100, 3000)
	// far pointers, in the tree and between records
	switch {
	case r.One(12):
		o.Pad = r.I(65530, 70000, 140000)
	case r.One(40):
		o.Pad = r.I(524000, 526330, 600000, 1<<20)
	case r.One(150):
		o.Rec = r.I(28, 28, 32)
		o.Pad = r.I(17<<20, 1<<24, 1<<24-r.N(400))
	}
	o.Dag = r.One(4)
	if r.One(4) {
		o.Mix = r.In(1, 4)
	}
	return o
}

// writeScan and writeMemip make text sources.
func writeScan(d *DS, eol string) []byte {
	if eol != "\r\n" {
		eol = "\n"
	}
	var b strings.Builder
	ver := map[string]any{"IpType": d.V, "Count": len(d.R), "Build": d.Build, "Version": d.Label, "Languages": []string{"CN"}, "ExtraInfo": d.Extra}
	j, _ := json.Marshal(ver)
	fmt.Fprintf(&b, "#### scan dump 2024-01-01 00:00:00 +0000 UTC ####%s#### %s%s#### %s%s", eol, j, eol, strings.Join(d.F, ","), eol)
	for _, r := range d.R {
		v := make([]string, len(r.V))
		for i, x := range r.V {
			v[i] = strings.ReplaceAll(x, ",", "_")
		}
		fmt.Fprintf(&b, "%s\t%s%s", r.C, strings.Join(v, ","), eol)
	}
	return []byte(b.String())
}

// writeMemip writes ranges; with join, adjacent networks of equal values are one.
func writeMemip(d *DS, eol string, join bool) []byte {
	if eol == "" {
		eol = "\n"
	}
	var b strings.Builder
	type rg struct {
		lo, hi A
		v6     bool
		s      string
	}
	var rs []rg
	for _, r := range d.R {
		p, _ := parsePfx(r.C)
		rs = append(rs, rg{p.lo(), p.hi(), p.v6, strings.ReplaceAll(strings.Join(r.V, "-"), " ", "_")})
	}
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].lo.less(rs[j].lo) })
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		for join && i+1 < len(rs) && rs[i+1].s == r.s && rs[i+1].v6 == r.v6 && r.hi != low(width(r.v6)) && r.hi.inc() == rs[i+1].lo {
			i++
			r.hi = rs[i].hi
		}
		if r.v6 {
			fmt.Fprintf(&b, "%s %s %s%s", textIP(r.lo, true), textIP(r.hi, true), r.s, eol)
		} else {
			fmt.Fprintf(&b, "%d %d %s%s", r.lo.lo, r.hi.lo, r.s, eol)
		}
	}
	return []byte(b.String())
}
