//go:build go1.25

package h

import (
	"bytes"
	"strings"
)

// Dmg is one damage of stored bytes.
type Dmg struct {
	K string `json:"k"` // trunc extend flip set zero dup stale ins del be32
	O int    `json:"o"` // offset (from the end if negative)
	N int    `json:"n,omitempty"`
	X uint32 `json:"x,omitempty"`
	S string `json:"s,omitempty"` // num: replaces the O-th run of digits; line: inserted as a line before the O-th; ver: becomes the second line
}

func genDmg(r *Rand, size, max int) []Dmg {
	var out []Dmg
	n := r.In(1, max)
	for i := 0; i < n; i++ {
		var d Dmg
		o := r.N(size + 1)
		switch r.N(6) {
		case 0:
			o = r.N(40)
		case 1:
			o = r.N(300)
		case 2:
			o = -1 - r.N(300)
		}
		d.O = o
		switch r.N(14) {
		case 13:
			d.K, d.N = "last16", r.I(1, 2, 3, -1, 8, 9, 10, 256, 4000)
		case 11:
			d.K, d.O, d.S = "num", r.N(30), r.S("0", "1", "-1", "4294967295", "4294967294", "2147483648", "18446744073709551615", "1e9", "33", "128", "129", "256", "99999999", "", "nan")
		case 12:
			d.K, d.O, d.S = "line", r.N(8), r.S("", "x", "####", "#### ", "#### {}", "#### null", "1.2.3.4/24\ta", "1 2", "1 2 a-b", "5 1 a-b-c-d-e-f", ":: ::1 a", "x:y z:w a-b-c-d-e-f", "1.2.3.4/33\t", "\t\t", strings.Repeat("y", 70000))
		case 0, 1:
			d.K = "trunc"
		case 2:
			d.K, d.N = "extend", r.In(1, 64)
		case 3, 4:
			d.K, d.X = "flip", uint32(1)<<uint(r.N(8))
		case 5:
			d.K, d.X = "set", uint32(r.I(0, 1, 0x7f, 0x80, 0xff, r.N(256), '\n', '\t', ',', '-', ' ', '"', '#'))
		case 6:
			d.K, d.N = "zero", r.I(1, 4, 16, 512, r.N(4096))
		case 7:
			d.K, d.N, d.X = "dup", r.I(1, 4, 16, 64, 512), uint32(r.N(size+1))
		case 8:
			d.K, d.N = "del", r.I(1, 2, 4, 8, 100)
		case 9:
			d.K, d.N, d.X = "ins", r.I(1, 2, 4, 8), uint32(r.N(256))
		case 10:
			d.K, d.X = "be32", []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, uint32(size), uint32(r.N(size + 64)), uint32(r.U64())}[r.N(8)]
		}
		out = append(out, d)
	}
	return out
}

func applyDmg(b []byte, ds []Dmg) []byte {
	b = append([]byte(nil), b...)
	for _, d := range ds {
		o := d.O
		if o < 0 {
			o += len(b)
		}
		if o < 0 {
			o = 0
		}
		if o > len(b) {
			o = len(b)
		}
		n := d.N
		if n < 0 {
			n = 0
		}
		if n > 1<<16 {
			n = 1 << 16
		}
		switch d.K {
		case "trunc":
			b = b[:o]
		case "extend":
			for i := 0; i < n; i++ {
				b = append(b, byte(i*7+int(d.X)))
			}
		case "flip":
			if o < len(b) {
				b[o] ^= byte(d.X)
			}
		case "set":
			if o < len(b) {
				b[o] = byte(d.X)
			}
		case "zero":
			for i := o; i < o+n && i < len(b); i++ {
				b[i] = 0
			}
		case "dup": // a block overwritten by another block of the file (misdirected or stale write)
			s := int(d.X)
			if s > len(b) {
				s = len(b)
			}
			e := s + n
			if e > len(b) {
				e = len(b)
			}
			copy(b[o:], append([]byte(nil), b[s:e]...))
		case "del":
			e := o + n
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:o], b[e:]...)
		case "ins":
			x := make([]byte, n)
			for i := range x {
				x[i] = byte(d.X)
			}
			b = append(b[:o:o], append(x, b[o:]...)...)
		case "num":
			k := -1
			for i := 0; i < len(b); i++ {
				if b[i] < '0' || b[i] > '9' || (i > 0 && b[i-1] >= '0' && b[i-1] <= '9') {
					continue
				}
				if k++; k == d.O {
					e := i
					for e < len(b) && b[e] >= '0' && b[e] <= '9' {
						e++
					}
					b = append(b[:i:i], append([]byte(d.S), b[e:]...)...)
					break
				}
			}
		case "line":
			i := 0
			for k := 0; k < d.O; k++ {
				j := bytes.IndexByte(b[i:], '\n')
				if j < 0 {
					i = len(b)
					break
				}
				i += j + 1
			}
			s := d.S + "\n"
			if i == len(b) && i > 0 && b[i-1] != '\n' {
				s = "\n" + s
			}
			b = append(b[:i:i], append([]byte(s), b[i:]...)...)
		case "ver", "dupl", "swapl", "dell":
			b = dmgLines(b, d)
		case "last16": // the length of the last block that carries its length
			for i := len(b) - 2; i >= 0; i-- {
				if int(b[i])<<8|int(b[i+1]) == len(b)-i-2 {
					n := len(b) - i - 2 + d.N
					b[i], b[i+1] = byte(n>>8), byte(n)
					break
				}
			}
		case "be32":
			for i := 0; i < 4 && o+i < len(b); i++ {
				b[o+i] = byte(d.X >> uint(24-8*i))
			}
		}
	}
	return b
}

// dmgLines damages whole lines of a text.
func dmgLines(b []byte, d Dmg) []byte {
	l := bytes.SplitAfter(b, []byte("\n"))
	at := func(i int) int {
		if i < 0 {
			i = -i
		}
		return i % len(l)
	}
	i, j := at(d.O), at(int(d.X))
	switch d.K {
	case "ver":
		if len(l) > 1 {
			l[1] = []byte("#### " + d.S + "\n")
		}
	case "dupl":
		x := append([][]byte(nil), l[:j]...)
		l = append(append(x, l[i]), l[j:]...)
	case "swapl":
		l[i], l[j] = l[j], l[i]
	case "dell":
		l = append(l[:i:i], l[i+1:]...)
	}
	return bytes.Join(l, nil)
}

// genDmgText makes damages of a text source which leave its lines in form.
func genDmgText(r *Rand, d *DB) []Dmg {
	var out []Dmg
	for k := r.In(1, 3); k > 0; k-- {
		n := len(d.DS.R) + 4
		switch r.N(6) {
		case 0, 1:
			if d.Kind == ".scan" {
				out = append(out, Dmg{K: "ver", S: r.S(`{"IpType":1}`, `{"IpType":2}`, `{"IpType":3}`, `{"IpType":0}`, `{"IpType":4}`, `{"IpType":-1}`, `{}`, `{"IpType":1,"Count":4294967295}`,
					`{"IpType":1,"Count":-1}`, `{"IpType":"1"}`, `[]`, `null`, `{"IpType":3,"Build":9223372036854775807}`, `{"IpType":1e3}`)})
				break
			}
			fallthrough
		case 2, 3: // a row of another family, or one that overlaps others
			c := r.S("2001:db8::/32", "10.0.0.0/8", "::/0", "0.0.0.0/0", "::/1", "::ffff:0:0/96", "::ffff:1.0.0.0/104", "255.255.255.255/32", "ffff::/16", "1.2.3.4/31")
			s := ""
			if d.Kind == ".scan" {
				s = c + "\t" + strings.Repeat(",", len(d.DS.F)-1)
			} else {
				s = r.S("2001:db8:: 2001:db8::ffff", ":: ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::1 ::ffff:1.2.3.4", "::ffff:1.2.3.4 ::2:0:0", "0 4294967295", "4294967295 4294967295", "::ffff:0.0.0.0 ::ffff:255.255.255.255", "16777216 16777471",
					"::fffe:ffff:ffff ::ffff:0.0.0.9", "::ffff:9.0.0.0 10.0.0.0") + " " + strings.Repeat("a-", 5) + "b"
			}
			out = append(out, Dmg{K: "line", O: r.N(n), S: s})
		case 4:
			out = append(out, Dmg{K: r.S("dupl", "swapl", "swapl"), O: r.N(n), X: uint32(r.N(n))})
		case 5:
			out = append(out, Dmg{K: "dell", O: r.N(n)})
		}
	}
	return out
}
