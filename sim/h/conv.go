//go:build go1.25

package h

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

// Conv is one conversion: a source, a rule, field operations, outputs.
type Conv struct {
	Src  *DB      `json:"src"`
	Rule string   `json:"rule,omitempty"`
	Ops  []string `json:"ops,omitempty"`
	Outs []string `json:"outs,omitempty"` // formats
}

var opKinds = []string{"shortage", "trim", "merge", "district", "line", "linerep", "asnline"}

// opByName gives a field operation; line databases come from the caller.
func opByName(n string, line inf.Query, asn map[string]string) operate.Operate {
	switch n {
	case "shortage":
		return operate.ReplaceShortage
	case "trim":
		return operate.TrimAsnIspDup
	case "merge":
		return operate.MergeNearNetwork
	case "district":
		return operate.AttachDistrict
	case "line":
		if line != nil {
			return func(d *inf.IpData) { operate.AttachLineByCidr(d, line) }
		}
	case "linerep":
		if line != nil {
			return func(d *inf.IpData) { operate.ReplaceLineByCidr(d, line) }
		}
	case "asnline":
		return func(d *inf.IpData) { operate.AttachLineByAsn(d, asn, "asn-1") }
	}
	return nil
}

// opList builds the operations of a conversion as callers do: the default ones
// extended by others.
func opList(ops []string, line inf.Query) ([]operate.Operate, bool) {
	asn := map[string]string{"4134": "电信", "4837": "联通", "9394": "移动", "64512": ""}
	out := operate.DefaultOperates
	for i, n := range ops {
		if n == "default" && i == 0 {
			continue
		}
		if i == 0 {
			out = nil
		}
		f := opByName(n, line, asn)
		if f == nil {
			return nil, false
		}
		out = append(out, f)
	}
	if len(ops) == 0 {
		out = nil
	}
	return out, true
}

func genOpList(r *Rand, line bool) []string {
	var out []string
	switch r.N(4) {
	case 0:
		return nil
	case 1, 2:
		out = append(out, "default")
	}
	for k := r.In(0, 3); k > 0; k-- {
		o := opKinds[r.N(len(opKinds))]
		if (o == "line" || o == "linerep") && !line {
			o = "district"
		}
		out = append(out, o)
	}
	return out
}

// genRule makes an export rule; with like not empty, one with the same fields
// and other conditions.
func genRule(r *Rand, like string) string {
	fields := strings.Split(strings.SplitN(like, "|", 2)[0], ",")
	if like == "" {
		fields = genFields(r)
	}
	rule := strings.Join(fields, ",")
	for k := r.In(0, 2); k > 0; k-- {
		key := fields[r.N(len(fields))]
		val := "x"
		if v, ok := vocab[key]; ok {
			val = v[r.N(len(v))]
			if r.One(3) {
				val += "/" + v[r.N(len(v))]
			}
		}
		if strings.ContainsAny(val, "|:,=") {
			val = "中国"
		}
		var keep []string
		for _, f := range fields {
			if r.One(2) {
				keep = append(keep, f)
			}
		}
		if len(keep) == 0 {
			keep = []string{key}
		}
		rule += "|" + key + "=" + r.S("", "", "!") + val + ":" + strings.Join(keep, ",")
	}
	return rule
}

// genConvSrc makes a source that covers its whole address range.
func genConvSrc(r *Rand, kind string, splits int) *DB {
	o := dsOpt{full: true, splits: splits, v: r.I(1, 1, 2)}
	switch kind {
	case ".scan", ".memip":
		return genTextDB(r, kind, o)
	case ".ipdb":
		d := &DB{Kind: kind, Ip: genIpdbOpt(r)}
		d.DS = genDS(r, o)
		return d
	}
	d := &DB{Kind: ".awdb", Aw: genAwOpt(r)}
	d.DS = genDS(r, o)
	return d
}

// genLineDB makes a line database, incomplete more often than not.
func genLineDB(r *Rand) *DB {
	o := dsOpt{splits: r.In(1, 6), v: r.I(1, 1, 2, 3), full: r.One(3)}
	if o.full {
		o.v = r.I(1, 2)
	}
	o.fields = []string{"country", "line"}
	if r.One(4) {
		o.fields = []string{"line", "isp", "country"}
	}
	d := &DB{Kind: ".ipdb", Ip: IpdbOpt{Lang: r.N(3), Dag: r.One(4)}}
	if r.One(4) && o.v != 3 {
		d.Kind, d.Aw = ".awdb", genAwOpt(r)
		o.full = true
	}
	d.DS = genDS(r, o)
	return d
}

// convert does one conversion of a mounted file: dump, operate, pack.
func (c *Conv) convert(name string, line inf.Query) (string, []string, error) {
	ops, ok := opList(c.Ops, line)
	if !ok {
		return "", nil, errors.New("no such operation")
	}
	d, err := convert.DumpFile(name, c.Rule, ops)
	if err != nil {
		return "", nil, err
	}
	s := canonData(d, maskMemip(c.Src.Kind))
	var outs []string
	for _, k := range c.Outs {
		b, err := convert.PackBytes(k, d)
		if err != nil {
			outs = append(outs, k+" error")
			continue
		}
		t := k + " " + maskBuild(k, b)
		if c.Src.Kind == ".memip" { // the label of a source without one is the date of conversion
			t = k + " " + maskLabel(k, b, d.Version)
		}
		outs = append(outs, t)
	}
	return s, outs, nil
}

// maskLabel also hides the version label that a memip source is given.
func maskLabel(kind string, b []byte, v *inf.VersionInfo) string {
	s := maskBuild(kind, b)
	if v != nil {
		s = strings.Replace(s, `"`+v.Version+`"`, `"@"`, 1)
		s = strings.Replace(s, fmt.Sprintf(`"Build":%d,`, v.Build), `"Build":0,`, 1)
	}
	return s
}

// openLine opens a line database.
func openLine(d *DB) (inf.Query, error) {
	q, err := query.NewDbFromBytes(d.Kind, d.bytes())
	if err != nil {
		return nil, err
	}
	return query.GetIntern(q), nil
}

func (d *DB) full() bool {
	m := newModel(d.DS)
	if m.over {
		return false
	}
	ok := func(l []mrow, w int) bool {
		if len(l) == 0 {
			return false
		}
		if (l[0].p.lo() != A{}) || l[len(l)-1].p.hi() != low(w) {
			return false
		}
		for i := 1; i < len(l); i++ {
			if l[i].p.lo() != l[i-1].p.hi().inc() {
				return false
			}
		}
		return true
	}
	return (d.DS.V&1 == 0 || ok(m.v4, 32)) && (d.DS.V&2 == 0 || ok(m.v6, 128))
}

func sortStrs(x []string) []string {
	y := cloneStrs(x)
	sort.Strings(y)
	return y
}
