//go:build go1.25

package h

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/format/awdb"
	"github.com/qiniu/uip/verifsim/rt"
)

// Tgt is what a caller of the awdb library decodes a record into.
type Tgt struct {
	K   string      `json:"k"`             // any; map: a map of values of kind E; struct: with the fields F; nil, val: no pointer to a value
	E   string      `json:"e,omitempty"`   // kind of a map's values
	F   [][2]string `json:"f,omitempty"`   // key and kind
	Emb int         `json:"emb,omitempty"` // so many of the last fields are in an embedded struct
}

var kinds19 = map[string]reflect.Type{
	"any": reflect.TypeOf((*interface{})(nil)).Elem(), "string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte{}),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)), "bool": reflect.TypeOf(false), "off": reflect.TypeOf(uintptr(0)),
	"map": reflect.TypeOf(map[string]interface{}{}), "strmap": reflect.TypeOf(map[string]string{}), "mapmap": reflect.TypeOf(map[string]map[string]string{}),
	"mapptr": reflect.TypeOf(map[string]*map[string]interface{}{}), "mapsub": reflect.TypeOf(map[string]sub19{}),
	"list": reflect.TypeOf([]interface{}{}), "ulist": reflect.TypeOf([]uint64{}), "plist": reflect.TypeOf([]*uint64{}),
	"*string": reflect.TypeOf((*string)(nil)), "*uint64": reflect.TypeOf((*uint64)(nil)), "*bytes": reflect.TypeOf((*[]byte)(nil)),
	"big": reflect.TypeOf(big.Int{}), "*big": reflect.TypeOf((*big.Int)(nil)), "sub": reflect.TypeOf(sub19{}), "*sub": reflect.TypeOf((*sub19)(nil)),
}

type sub19 struct {
	Country string      `awdb:"country"`
	Isp     bool        `awdb:"isp"`
	X       string      `awdb:"x"`
	Y       interface{} `awdb:"y"`
}

var textKinds19 = []string{"string", "string", "bytes", "any", "*string", "off", "*bytes"}
var kindList19 = func() (l []string) {
	for k := range kinds19 {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}()

// types of one name, as the functions of a program have them
func named19() (l []reflect.Type) {
	func() {
		type rec struct {
			Country string      `awdb:"country"`
			City    string      `awdb:"city"`
			Mix     interface{} `awdb:"mix0"`
		}
		l = append(l, reflect.TypeOf(rec{}))
	}()
	func() {
		type rec struct {
			City string      `awdb:"city"`
			Isp  string      `awdb:"isp"`
			Mix  interface{} `awdb:"mix1"`
			Line string      `awdb:"-"`
		}
		l = append(l, reflect.TypeOf(rec{}))
	}()
	func() {
		type rec struct {
			Mix     interface{} `awdb:"mix1"`
			Country string      `awdb:"country"`
			Isp     *string     `awdb:"isp"`
		}
		l = append(l, reflect.TypeOf(rec{}))
	}()
	return
}

func (t *Tgt) valid() bool {
	if t == nil {
		return false
	}
	_, ok := kinds19[t.E]
	if t.K == "map" && !ok {
		return false
	}
	seen := map[string]bool{}
	for _, f := range t.F {
		if _, ok := kinds19[f[1]]; !ok || seen[f[0]] || f[0] == "" || strings.ContainsAny(f[0], "\"\\`") {
			return false
		}
		seen[f[0]] = true
	}
	return t.Emb >= 0 && t.Emb <= len(t.F) && (t.K == "any" || t.K == "named" && (t.E == "0" || t.E == "1" || t.E == "2") || t.K == "map" || t.K == "struct" || t.K == "nil" || t.K == "val")
}

// typ is the Go type of the target.
func (t *Tgt) typ() reflect.Type {
	switch t.K {
	case "named":
		return named19()[t.E[0]-'0']
	case "map":
		return reflect.MapOf(kinds19["string"], kinds19[t.E])
	case "struct":
		mk := func(from, to int) (fs []reflect.StructField) {
			for i := from; i < to; i++ {
				f := t.F[i]
				fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: kinds19[f[1]], Tag: reflect.StructTag(`awdb:"` + f[0] + `"`)})
			}
			return
		}
		n := len(t.F) - t.Emb
		fs := append(mk(0, n), reflect.StructField{Name: "Ignored", Type: kinds19["uint64"], Tag: `awdb:"-"`})
		if t.Emb > 0 {
			fs = append(fs, reflect.StructField{Name: "Emb", Type: reflect.StructOf(mk(n, len(t.F))), Anonymous: true})
		}
		return reflect.StructOf(fs)
	}
	return kinds19["any"]
}

// render shows what a target holds; offsets are followed.
func render19(r *awdb.Reader, v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if b, ok := v.Interface().(*big.Int); ok {
			return "big" + b.String()
		}
		return "&" + render19(r, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return render19(r, v.Elem())
	case reflect.String:
		return fmt.Sprintf("s%q", v.String())
	case reflect.Slice:
		if b, ok := v.Interface().([]byte); ok {
			return fmt.Sprintf("b%q", b)
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, render19(r, v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, fmt.Sprintf("%q:%s", k.String(), render19(r, v.MapIndex(k))))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Struct:
		if v.Type() == kinds19["big"] {
			b := v.Interface().(big.Int)
			return "big" + b.String()
		}
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, render19(r, v.Field(i)))
		}
		return "(" + strings.Join(l, ",") + ")"
	case reflect.Uintptr:
		if r == nil || v.Uint() == 0 { // no value is at the start of the data
			return "@-"
		}
		var x interface{}
		if err := r.Decode(uintptr(v.Uint()), &x); err != nil {
			return "@error: " + err.Error()
		}
		return "@" + render19(r, reflect.ValueOf(&x).Elem())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%s %v", v.Kind(), v.Float())
	}
	return fmt.Sprintf("%s %v", v.Kind(), v.Interface())
}

// holds is what a value looks like in a target of that type, if it can be stored there.
func (v av) holds(t reflect.Type) (string, bool) {
	if t.Kind() == reflect.Ptr {
		s, ok := v.holds(t.Elem())
		if t == kinds19["*big"] {
			return s, ok
		}
		return "&" + s, ok
	}
	natural := t.Kind() == reflect.Interface
	switch t.Kind() {
	case reflect.Uintptr:
		s, _ := v.holds(kinds19["any"])
		return "@" + s, true
	}
	switch v.typ {
	case 2:
		switch {
		case natural:
			return fmt.Sprintf("b%q", v.s), true
		case t.Kind() == reflect.String:
			return fmt.Sprintf("s%q", v.s), true
		}
	case 4:
		if natural || t == kinds19["bytes"] {
			return fmt.Sprintf("b%q", v.s), true
		}
	case 3, 15:
		k := t.Kind()
		if natural {
			k = reflect.Float64
			if v.typ == 15 {
				k = reflect.Float32
			}
		}
		f := v.f
		if k == reflect.Float32 {
			if math.Abs(f) > math.MaxFloat32 {
				return "", false
			}
			f = float64(float32(f))
		}
		if k == reflect.Float32 || k == reflect.Float64 {
			return fmt.Sprintf("%s %v", k, f), true
		}
	case 5, 6, 9, 8:
		n := new(big.Int).SetUint64(v.u)
		if v.typ == 8 {
			n = big.NewInt(int64(int32(uint32(v.u))))
		}
		k := t.Kind()
		if natural {
			k = reflect.Uint64
			if v.typ == 8 {
				k = reflect.Int
			}
		}
		var lo, hi = new(big.Int), new(big.Int)
		size := map[reflect.Kind]int{reflect.Int: 64, reflect.Int8: 8, reflect.Int16: 16, reflect.Int32: 32, reflect.Int64: 64,
			reflect.Uint: -64, reflect.Uint8: -8, reflect.Uint16: -16, reflect.Uint32: -32, reflect.Uint64: -64}[k]
		switch {
		case size == 0:
			return "", false
		case size > 0:
			hi.Lsh(big.NewInt(1), uint(size-1))
			lo.Neg(hi)
		default:
			hi.Lsh(big.NewInt(1), uint(-size))
		}
		return fmt.Sprintf("%s %v", k, n), n.Cmp(lo) >= 0 && n.Cmp(hi) < 0
	case 10:
		n := new(big.Int).SetBytes(A{v.u, v.u}.bytes(true))
		if natural || t == kinds19["big"] {
			return "big" + n.String(), true
		}
	case 14:
		if natural || t.Kind() == reflect.Bool {
			return fmt.Sprint(v.u == 1), true
		}
	case 11:
		e := kinds19["any"]
		if !natural {
			if t.Kind() != reflect.Slice {
				return "", false
			}
			e = t.Elem()
		}
		var l []string
		for _, x := range v.list {
			s, ok := x.holds(e)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		return "[" + strings.Join(l, " ") + "]", true
	case 7:
		if t.Kind() == reflect.Struct {
			if t == kinds19["big"] { // a struct with none of the keys
				return "big0", true
			}
			var l []string
			ok := true
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				s := render19(nil, reflect.Zero(f.Type))
				if f.Anonymous {
					var is bool
					s, is = v.holds(f.Type)
					ok = ok && is
				} else if x, found := v.get(f.Tag.Get("awdb")); found && f.Tag.Get("awdb") != "-" {
					var is bool
					s, is = x.holds(f.Type)
					ok = ok && is
				}
				l = append(l, s)
			}
			return "(" + strings.Join(l, ",") + ")", ok
		}
		e := kinds19["any"]
		if !natural {
			if t.Kind() != reflect.Map {
				return "", false
			}
			e = t.Elem()
		}
		var l []string
		for i, k := range v.keys {
			s, ok := v.list[i].holds(e)
			if !ok {
				return "", false
			}
			l = append(l, fmt.Sprintf("%q:%s", k, s))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}", true
	}
	return "", false
}

// scribble19 writes to everything a target gives access to.
func scribble19(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble19(v.Elem())
		}
	case reflect.Slice:
		if b, ok := v.Interface().([]byte); ok {
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x5a
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble19(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			scribble19(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		v.SetMapIndex(reflect.ValueOf("scribbled"), reflect.Zero(v.Type().Elem()))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type() != kinds19["big"] {
				scribble19(v.Field(i))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	}
}

// Op19 is a use of the library.
type Op19 struct {
	K   string `json:"k"`           // l n o: lookups; w: networks within A (all without A), and within B alternately
	A   string `json:"a,omitempty"` // address or network
	B   string `json:"b,omitempty"`
	Hex bool   `json:"hex,omitempty"` // networks in their 16 byte form
	T   *Tgt   `json:"t"`
	Mut bool   `json:"mut,omitempty"` // what was received is modified
	Re  bool   `json:"re,omitempty"`  // the variable still holds the answer before
}

// model19 is what the file says.
type model19 struct {
	v6   bool
	rows []mrow
	recs []av
}

func newModel19(d *DB) *model19 {
	m := newModel(d.DS)
	o := &model19{v6: d.DS.V == 2, recs: awRecords(d.DS, d.Aw)}
	l := m.v4
	if o.v6 {
		l = m.v6
	}
	for _, x := range l {
		if x.p.bits == 0 {
			lo, hi := x, x
			lo.p.bits, hi.p.bits = 1, 1
			hi.p.a = x.p.lo().setBit(0, width(o.v6), 1)
			o.rows = append(o.rows, lo, hi)
			continue
		}
		o.rows = append(o.rows, x)
	}
	return o
}

// leaf is the place of an address in the tree: the network, and its row or -1.
func (m *model19) leaf(a A) (Pfx, int) {
	for i := 1; ; i++ {
		p := Pfx{a, i, m.v6}
		p.a = p.lo()
		free := true
		for _, x := range m.rows {
			if x.p.bits <= i && x.p.has(a) {
				return x.p, x.row
			}
			if x.p.lo().le(p.hi()) && p.lo().le(x.p.hi()) {
				free = false
				break
			}
		}
		if free || i == width(m.v6) {
			return p, -1
		}
	}
}

// find is the answer to a lookup.
func (m *model19) find(ip net.IP) (network string, row int, ok bool) {
	a, v6 := addrOf(ip)
	if v6 && !m.v6 {
		return "", -1, false
	}
	if m.v6 && !v6 {
		if p, row := m.leaf(A{}); p.bits < 96 {
			return p.String(), row, true
		}
		p, row := m.leaf(A{0, a.lo})
		if p.bits < 96 {
			return fmt.Sprintf("%s/%d", textIP(p.lo(), true), p.bits), row, true
		}
		q := Pfx{A{0, p.lo().lo & 0xffffffff}, p.bits - 96, false}
		return q.String(), row, true
	}
	p, row := m.leaf(a)
	return p.String(), row, true
}

func (m *model19) within(p Pfx) []mrow {
	var out []mrow
	for _, x := range m.rows {
		if x.p.bits <= p.bits && x.p.has(p.a) {
			return []mrow{x}
		}
		if p.has(x.p.lo()) && p.has(x.p.hi()) {
			out = append(out, x)
		}
	}
	return out
}

// decoded is how a record looks in a target.
func (m *model19) decoded(row int, t *Tgt) string {
	switch t.K {
	case "nil", "val":
		return "refused"
	}
	s, ok := m.recs[row].holds(t.typ())
	if !ok {
		return "type"
	}
	return s
}

const max19 = 300

func (m *model19) want(op Op19) string {
	if op.K == "w" {
		seq := func(c string) (l []string) {
			p := Pfx{A{}, 0, m.v6}
			if c != "" {
				p, _ = parsePfx(c)
			}
			end := "end"
			if p.v6 && !m.v6 {
				return []string{"no network of the database"}
			}
			for k, x := range m.within(p) {
				if k == max19 {
					end = "more"
					break
				}
				s := m.decoded(x.row, op.T)
				if s == "type" || s == "refused" {
					l = append(l, s)
				} else {
					l = append(l, x.p.String()+" "+s)
				}
			}
			return append(l, end)
		}
		s := strings.Join(seq(op.A), "; ")
		if op.B != "" {
			s += " | " + strings.Join(seq(op.B), "; ")
		}
		return s
	}
	n, row, ok := m.find(net.ParseIP(op.A))
	if !ok {
		return "wrong family"
	}
	val := "unset"
	if row >= 0 {
		val = m.decoded(row, op.T)
		if op.K == "o" && op.Re && val != "type" && val != "refused" {
			val += " " + val
		}
	}
	if op.K == "n" {
		return fmt.Sprintf("%s %v %s", n, row >= 0, val)
	}
	return val
}

type ans19 struct {
	op   Op19
	nets []*net.IPNet
	vals []reflect.Value
	seen string // everything as it was received
	used bool
}

func (a *ans19) held(r *awdb.Reader) string {
	var l []string
	for _, n := range a.nets {
		l = append(l, n.String())
	}
	for _, v := range a.vals {
		l = append(l, render19(r, v))
	}
	return strings.Join(l, " ")
}

type caller19 struct {
	r    *awdb.Reader
	last interface{}
}

// ask does one operation and says what came.
func (c *caller19) ask(op Op19) (string, *ans19) {
	a := &ans19{op: op}
	typ := op.T.typ()
	into := func() (interface{}, reflect.Value) {
		v := reflect.New(typ)
		switch op.T.K {
		case "nil":
			return (*map[string]string)(nil), v.Elem()
		case "val":
			return map[string]string{}, v.Elem()
		}
		if op.Re && typ == kinds19["any"] && c.last != nil {
			v.Elem().Set(reflect.ValueOf(c.last))
		}
		return v.Interface(), v.Elem()
	}
	failed := func(err error) string {
		var te awdb.UnmarshalTypeError
		if op.T.K == "nil" || op.T.K == "val" {
			return "refused"
		}
		if errors.As(err, &te) {
			return "type"
		}
		return "error: " + err.Error()
	}
	got := func(v reflect.Value, err error) string {
		if err != nil {
			return failed(err)
		}
		a.vals = append(a.vals, v)
		s := render19(c.r, v)
		if typ == kinds19["any"] {
			c.last = v.Interface()
		}
		return s
	}
	done := func(s string) (string, *ans19) {
		a.seen = a.held(c.r)
		if op.Mut {
			a.used = true
			for _, n := range a.nets {
				for k := range n.IP {
					n.IP[k] ^= 0xff
				}
				for k := range n.Mask {
					n.Mask[k] ^= 0xff
				}
			}
			for _, v := range a.vals {
				scribble19(v)
			}
			c.last = nil
		}
		return s, a
	}
	if op.K == "w" {
		its := []*awdb.Networks{}
		out := [2][]string{}
		for _, s := range []string{op.A, op.B} {
			if s == "" {
				if len(its) == 0 {
					its = append(its, c.r.Networks())
				}
				continue
			}
			_, n, err := net.ParseCIDR(s)
			if err != nil {
				return "bad case", a
			}
			// the address the network was named with
			n.IP = net.ParseIP(s[:strings.IndexByte(s, '/')])
			if ip4 := n.IP.To4(); ip4 != nil && len(n.Mask) == 4 && !op.Hex {
				n.IP = ip4
			}
			its = append(its, c.r.NetworksWithin(n))
		}
		open := len(its)
		for open > 0 {
			open = 0
			for i, it := range its {
				if k := len(out[i]); k > 0 && (out[i][k-1] == "end" || out[i][k-1] == "more" || strings.HasPrefix(out[i][k-1], "no network")) {
					continue
				}
				if !it.Next() {
					switch err := it.Err(); {
					case err == nil:
						out[i] = append(out[i], "end")
					case len(out[i]) == 0:
						out[i] = append(out[i], "no network of the database")
					default:
						out[i] = append(out[i], "error: "+err.Error())
						return strings.Join(out[i], "; "), a
					}
					continue
				}
				if len(out[i]) == max19 {
					out[i] = append(out[i], "more")
					continue
				}
				open++
				p, v := into()
				n, err := it.Network(p)
				if err != nil {
					out[i] = append(out[i], failed(err))
					continue
				}
				s := fmt.Sprintf("%s %s", n, got(v, nil))
				out[i] = append(out[i], s)
				a.nets = append(a.nets, n)
				if op.Mut { // at once
					for k := range n.IP {
						n.IP[k] ^= 0xff
					}
					for k := range n.Mask {
						n.Mask[k] ^= 0xff
					}
					if n, err := it.Network(p); err == nil && n != nil {
						if s2 := fmt.Sprintf("%s %s", n, render19(c.r, v)); s2 != s {
							out[i][len(out[i])-1] += ", asked again: " + s2
						}
					}
				}
			}
		}
		s := strings.Join(out[0], "; ")
		if op.B != "" {
			s += " | " + strings.Join(out[1], "; ")
		}
		return done(s)
	}
	ip := net.ParseIP(op.A)
	if ip4 := ip.To4(); ip4 != nil && !op.Hex {
		ip = ip4
	}
	was := append(net.IP(nil), ip...)
	defer func() {
		if !was.Equal(ip) {
			panic("the address asked for was modified")
		}
	}()
	family := func(err error) bool {
		var te awdb.UnmarshalTypeError
		return err != nil && !errors.As(err, &te) && ip.To4() == nil && c.r.Metadata.IPVersion == 4
	}
	p, v := into()
	before := render19(nil, v)
	switch op.K {
	case "l":
		err := c.r.Lookup(ip, p)
		if family(err) {
			return "wrong family", a
		}
		if err == nil {
			// whether there was a record shows in LookupOffset
			if off, err := c.r.LookupOffset(ip); err == nil && off == awdb.NotFound {
				if render19(nil, v) == before {
					return "unset", a
				}
				return "set without a record: " + render19(c.r, v), a
			}
		}
		return done(got(v, err))
	case "n":
		n, ok, err := c.r.LookupNetwork(ip, p)
		if family(err) {
			return "wrong family", a
		}
		if n == nil {
			return fmt.Sprintf("no network: %v %v", ok, err), a
		}
		s := fmt.Sprintf("%s %v ", n, ok)
		if !n.Contains(ip) && n.String() != "::/"+fmt.Sprint(ones(n)) {
			s = "network without the address: " + s
		}
		a.nets = append(a.nets, n)
		if !ok && err == nil {
			if render19(nil, v) == before {
				return done(s + "unset")
			}
			return s + "set without a record", a
		}
		return done(s + got(v, err))
	case "o":
		off, err := c.r.LookupOffset(ip)
		if family(err) {
			return "wrong family", a
		}
		if err != nil {
			return "error: " + err.Error(), a
		}
		if off == awdb.NotFound {
			return "unset", a
		}
		s := got(v, c.r.Decode(off, p))
		if op.Re && s != "type" && s != "refused" { // the offset is good for more than one time
			v2 := reflect.New(typ)
			s += " " + got(v2.Elem(), c.r.Decode(off, v2.Interface()))
		}
		return done(s)
	}
	return "bad case", a
}

func ones(n *net.IPNet) int {
	k, _ := n.Mask.Size()
	return k
}

// C19: the awdb library gives what the file says.
type c19 struct {
	DB    *DB      `json:"db"`
	Tasks [][]Op19 `json:"tasks"`
	Sched rt.Sched `json:"sched"`
	Map   uint64   `json:"map,omitempty"`
}

func genTgt(r *Rand, d *DB) *Tgt {
	t := &Tgt{K: r.S("any", "any", "struct", "struct", "struct", "map", "named")}
	switch {
	case r.One(40):
		t.K = r.S("nil", "val")
	case t.K == "named":
		t.E = r.S("0", "1", "2")
	case t.K == "map":
		t.E = r.S("any", "string", "string", "*string", "bytes", "*bytes", "off", "strmap", "sub")
	case t.K == "struct":
		keys := []string{"mix0", "mix1", "mix2", "mix3", "zz", "aaa_num", "nobody"}
		for _, f := range d.DS.F {
			if n, ok := awNames[f]; ok {
				f = n
			}
			if !strings.ContainsAny(f, "\"\\`:") {
				keys = append(keys, f, f)
			}
		}
		seen := map[string]bool{}
		recs := awRecords(d.DS, d.Aw)
		for k := r.In(1, 5); k > 0; k-- {
			key := keys[r.N(len(keys))]
			if seen[key] {
				continue
			}
			seen[key] = true
			kind := textKinds19[r.N(len(textKinds19))]
			if strings.HasPrefix(key, "mix") && len(recs) > 0 {
				kind = kindList19[r.N(len(kindList19))]
				if x, ok := recs[r.N(len(recs))].get(key); ok && r.N(5) > 0 { // one that takes the value
					for i := 0; i < 200; i++ {
						kind = kindList19[r.N(len(kindList19))]
						if _, ok := x.holds(kinds19[kind]); ok && kind != "off" {
							break
						}
					}
				}
			}
			t.F = append(t.F, [2]string{key, kind})
		}
		if r.One(4) {
			t.Emb = r.N(len(t.F) + 1)
		}
	}
	return t
}

func init() {
	register(&Prop{
		ID: "C19",
		Rule: "a case is an awdb file (either family, 24, 28 or 32-bit records, shared subtrees, values of every type), 1-5 callers sharing one Reader whose programs mix Lookup, LookupNetwork, LookupOffset and Decode into generated Go types with iterations over all networks or those within one, callers that modify what they receive, and a schedule; every answer is compared with the reference model of the file; " +
			"non-trivial if at least two tasks were runnable at a decision and the interleaving switched inside a call, or one caller iterated",
		Real: []string{"db/format/awdb (Reader, decoder, Networks)"},
		Stub: []string{"goroutine scheduler (task gates)", "package sync (waiting decided by the scheduler)", "map iteration order"},
		New:  func() any { return &c19{} },
		Gen: func(r *Rand, tier string) any {
			o := dsOpt{v: r.I(1, 1, 2), special: r.One(3), full: r.One(3), splits: r.I(0, 1, 2, 3, 8, 20), big: r.One(400)}
			d := &DB{Kind: ".awdb", DS: genDS(r, o), Aw: genAwOpt(r)}
			if r.One(2) {
				d.Aw.Mix = r.In(1, 4)
			}
			if d.DS.V == 2 && r.One(2) { // something for version 4 addresses
				p := genNets(r, false, r.One(2), r.In(0, 4))
				taken := newModel(d.DS)
				for _, p := range p {
					a, bits := mapped(p, A{})
					q := Pfx{a, bits, true}
					free := bits > 0
					for _, x := range taken.v6 {
						if x.p.lo().le(q.hi()) && q.lo().le(x.p.hi()) {
							free = false
						}
					}
					if free && r.N(4) > 0 {
						v := make([]string, len(d.DS.F))
						for i, f := range d.DS.F {
							v[i] = genValue(r, f, false)
						}
						d.DS.R = append(d.DS.R, Row{q.String(), v})
					}
				}
			}
			var k []Row
			for _, x := range d.DS.R {
				if p, _ := parsePfx(x.C); !(p.v6 && p.bits == 0) {
					k = append(k, x)
				}
			}
			d.DS.R = k
			c := &c19{DB: d, Sched: genSched(r)}
			m := newModel(d.DS)
			ips := m.probes(r, 10)
			network := func() string {
				ip := ips[r.N(len(ips))]
				a, v6 := addrOf(ip)
				w := width(v6)
				b := r.I(r.N(w+1), r.N(w/4+1), w)
				if rows := m.v4; r.One(3) {
					if d.DS.V == 2 {
						rows = m.v6
					}
					if len(rows) > 0 {
						x := rows[r.N(len(rows))].p
						a, v6 = x.a, x.v6
						b = x.bits + r.I(0, 0, 1, -1, -3, 4)
						if b < 0 || b > width(v6) {
							b = x.bits
						}
					}
				}
				if !v6 && d.DS.V == 2 {
					return "" // where version 4 networks are in a version 6 file is its business
				}
				p := Pfx{a, b, v6}
				if r.One(2) {
					return p.String()
				}
				return fmt.Sprintf("%s/%d", textIP(a, v6), b)
			}
			n := r.I(1, 2, 2, 3, 4, 5)
			for i := 0; i < n; i++ {
				var ops []Op19
				for k := r.In(1, 6); k > 0; k-- {
					op := Op19{K: r.S("l", "l", "n", "n", "o", "w", "w"), T: genTgt(r, d), Mut: r.One(3), Re: r.One(4), Hex: r.One(3)}
					if op.K == "w" {
						if r.N(3) > 0 {
							op.A = network()
						}
						if r.One(3) {
							op.B = network()
						}
					} else {
						op.A = ips[r.N(len(ips))].String()
					}
					ops = append(ops, op)
				}
				if i > 0 && r.One(4) {
					ops = c.Tasks[0]
				}
				c.Tasks = append(c.Tasks, ops)
			}
			if r.One(2) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c19)
			if c.DB == nil || c.DB.Kind != ".awdb" || len(c.DB.Dmg) > 0 || !c.DB.valid() || len(c.Tasks) == 0 {
				return invalid("db")
			}
			iter := false
			for _, t := range c.Tasks {
				for _, op := range t {
					if !op.T.valid() || op.K != "l" && op.K != "n" && op.K != "o" && op.K != "w" {
						return invalid("target")
					}
					iter = iter || op.K == "w"
					for _, s := range []string{op.A, op.B} {
						if op.K == "w" && s != "" {
							if p, ok := parsePfx(s); !ok || !p.v6 && c.DB.DS.V == 2 {
								return invalid("network")
							}
						} else if op.K != "w" && net.ParseIP(op.A) == nil {
							return invalid("address")
						}
					}
				}
			}
			rt.SetMapSeed(c.Map)
			b := c.DB.bytes()
			m := newModel19(c.DB)
			var r *awdb.Reader
			var err error
			o := rt.Do(openBudget, func() { r, err = awdb.FromBytes(b) })
			if v := outVerdict(o, "opening a valid database"); v != nil {
				return v
			}
			if err != nil {
				return bad("open", "opening a valid database failed: %v", err)
			}
			wrong := make([]string, len(c.Tasks))
			kept := make([][]*ans19, len(c.Tasks))
			note := func(i int, f string, a ...any) {
				if wrong[i] == "" {
					wrong[i] = fmt.Sprintf(f, a...)
				}
			}
			keep := func(i int, when string) {
				for _, a := range kept[i] {
					if a.used {
						continue
					}
					if s := a.held(r); s != a.seen {
						note(i, "what was received for %s changed %s: it was %s, now it is %s", show19(a.op), when, clip(a.seen, 500), clip(s, 500))
					}
				}
			}
			want := make([][]string, len(c.Tasks))
			var tasks []rt.Task
			for i := range c.Tasks {
				for _, op := range c.Tasks[i] {
					want[i] = append(want[i], m.want(op))
				}
				tasks = append(tasks, rt.Task{F: func() {
					me := &caller19{r: r}
					for k, op := range c.Tasks[i] {
						s, a := me.ask(op)
						if s != want[i][k] {
							note(i, "%s gave %s; the file says %s", show19(op), clip(s, 700), clip(want[i][k], 700))
						}
						kept[i] = append(kept[i], a)
						keep(i, "while the caller went on")
					}
				}})
			}
			res := rt.Run(c.Sched, 2*openBudget*(len(tasks)+1), nil, tasks...)
			x.Segs = res.Segs
			x.Extra = rt.SchedHash
			x.Nontrivial = iter || rt.Multi && len(res.Segs) > len(tasks)
			if v := verdictOf(res, "use of the awdb library"); v != nil {
				return v
			}
			for i := range c.Tasks {
				keep(i, "after all callers were done")
				if wrong[i] != "" {
					return bad("library", "caller %d: %s", i, wrong[i])
				}
			}
			return nil
		},
	})
}

func show19(op Op19) string {
	s := op.K + " " + op.A
	if op.B != "" {
		s += " and " + op.B
	}
	if op.T != nil {
		s += fmt.Sprintf(" into %s %s %v", op.T.K, op.T.E, op.T.F)
	}
	return s
}
