//go:build go1.25

// Package h holds the simulated workloads, the reference models and the
// oracles, one file per property.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net"
	"sort"
	"strings"

	"github.com/qiniu/uip/verifsim/rt"
)

// Rand is the one source of randomness of a case.
type Rand struct{ rt.Rng }

func NewRand(seed uint64) *Rand { return &Rand{rt.NewRng(seed)} }

func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) In(a, b int) int       { return a + r.N(b-a+1) }
func (r *Rand) P(p float64) bool      { return float64(r.U64()>>11)/(1<<53) < p }
func (r *Rand) One(n int) bool        { return r.N(n) == 0 }
func (r *Rand) S(xs ...string) string { return xs[r.N(len(xs))] }
func (r *Rand) I(xs ...int) int       { return xs[r.N(len(xs))] }

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

func hashJSON(v any) uint64 {
	b, _ := json.Marshal(v)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// A is an address: 32 bits in lo for version 4, 128 bits for version 6.
type A struct{ hi, lo uint64 }

func (a A) less(b A) bool { return a.hi < b.hi || (a.hi == b.hi && a.lo < b.lo) }
func (a A) le(b A) bool   { return !b.less(a) }
func (a A) inc() A {
	a.lo++
	if a.lo == 0 {
		a.hi++
	}
	return a
}
func (a A) dec() A {
	if a.lo == 0 {
		a.hi--
	}
	a.lo--
	return a
}
func (a A) or(b A) A  { return A{a.hi | b.hi, a.lo | b.lo} }
func (a A) and(b A) A { return A{a.hi & b.hi, a.lo & b.lo} }
func (a A) not() A    { return A{^a.hi, ^a.lo} }

// low returns a mask of the n lowest bits.
func low(n int) A {
	switch {
	case n <= 0:
		return A{}
	case n < 64:
		return A{0, 1<<uint(n) - 1}
	case n == 64:
		return A{0, ^uint64(0)}
	case n < 128:
		return A{1<<uint(n-64) - 1, ^uint64(0)}
	}
	return A{^uint64(0), ^uint64(0)}
}

func (a A) bit(i int, w int) int { // i-th bit from the top of a w-bit address
	k := w - 1 - i
	if k >= 64 {
		return int(a.hi>>(uint(k)-64)) & 1
	}
	return int(a.lo>>uint(k)) & 1
}

func (a A) setBit(i, w, v int) A {
	k := w - 1 - i
	m := A{0, 1}
	if k >= 64 {
		m = A{1 << uint(k-64), 0}
	} else {
		m = A{0, 1 << uint(k)}
	}
	if v == 1 {
		return a.or(m)
	}
	return a.and(m.not())
}

func width(v6 bool) int {
	if v6 {
		return 128
	}
	return 32
}

func (a A) bytes(v6 bool) []byte {
	if !v6 {
		return []byte{byte(a.lo >> 24), byte(a.lo >> 16), byte(a.lo >> 8), byte(a.lo)}
	}
	b := make([]byte, 16)
	for i := 0; i < 8; i++ {
		b[i] = byte(a.hi >> uint(56-8*i))
		b[8+i] = byte(a.lo >> uint(56-8*i))
	}
	return b
}

// IP makes a net.IP; version 4 addresses in 4 or 16 byte form.
func (a A) IP(v6, wide bool) net.IP {
	b := net.IP(a.bytes(v6))
	if !v6 && wide {
		return net.IPv4(b[0], b[1], b[2], b[3])
	}
	return b
}

func addrOf(ip net.IP) (A, bool) { // address, isV6
	if len(ip) == 4 {
		return A{0, uint64(ip[0])<<24 | uint64(ip[1])<<16 | uint64(ip[2])<<8 | uint64(ip[3])}, false
	}
	if len(ip) != 16 {
		return A{}, false
	}
	mapped := ip[10] == 0xff && ip[11] == 0xff
	for i := 0; i < 10; i++ {
		if ip[i] != 0 {
			mapped = false
		}
	}
	if mapped {
		return A{0, uint64(ip[12])<<24 | uint64(ip[13])<<16 | uint64(ip[14])<<8 | uint64(ip[15])}, false
	}
	var a A
	for i := 0; i < 8; i++ {
		a.hi = a.hi<<8 | uint64(ip[i])
		a.lo = a.lo<<8 | uint64(ip[8+i])
	}
	return a, true
}

func parseA(s string) (A, bool, bool) {
	ip := net.ParseIP(s)
	if ip == nil {
		return A{}, false, false
	}
	a, v6 := addrOf(ip)
	return a, v6, true
}

// Pfx is a network.
type Pfx struct {
	a    A
	bits int
	v6   bool
}

func (p Pfx) lo() A { return p.a.and(low(width(p.v6) - p.bits).not()) }
func (p Pfx) hi() A { return p.a.or(low(width(p.v6) - p.bits)) }
func (p Pfx) has(a A) bool {
	return p.lo().le(a) && a.le(p.hi())
}
func (p Pfx) String() string {
	return fmt.Sprintf("%s/%d", textIP(p.lo(), p.v6), p.bits)
}

func textIP(a A, v6 bool) string { return a.IP(v6, false).String() }

func parsePfx(s string) (Pfx, bool) {
	i := strings.IndexByte(s, '/')
	if i < 0 {
		return Pfx{}, false
	}
	a, v6, ok := parseA(s[:i])
	var bits int
	if _, err := fmt.Sscanf(s[i+1:], "%d", &bits); err != nil || !ok {
		return Pfx{}, false
	}
	if bits < 0 || bits > width(v6) {
		return Pfx{}, false
	}
	p := Pfx{a, bits, v6}
	p.a = p.lo()
	return p, true
}

// pfxOf reads a network as the code under test hands it out (either form).
func pfxOf(n *net.IPNet) (Pfx, bool) {
	if n == nil {
		return Pfx{}, false
	}
	a, v6 := addrOf(n.IP)
	ones, tot := n.Mask.Size()
	if tot == 0 && len(n.Mask) != 0 {
		return Pfx{}, false
	}
	if !v6 && tot == 128 {
		ones -= 96
	}
	if ones < 0 || ones > width(v6) || (v6 && tot != 128) {
		return Pfx{}, false
	}
	return Pfx{a, ones, v6}, true
}

// ipNet makes the network as a net.IPNet; wide gives version 4 networks in the
// 16-byte form that merging produces.
func (p Pfx) ipNet(wide bool) *net.IPNet {
	w := width(p.v6)
	bits := p.bits
	if !p.v6 && wide {
		w, bits = 128, bits+96
	}
	return &net.IPNet{IP: p.lo().IP(p.v6, wide), Mask: net.CIDRMask(bits, w)}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func cloneStrs(x []string) []string {
	if x == nil {
		return nil
	}
	return append([]string{}, x...)
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
