package main

import (
	"bytes"
	"encoding/json"
	"sort"
	"sync"
	"time"
)

// shrink minimises the failing history: first the cases before the last, then
// the last case as a JSON tree, then the schedule.  Every candidate runs in a
// fresh process and must fail in the same class.
func (r *runner) shrink(f *found, until time.Time) ([]json.RawMessage, *verdict, string, int) {
	h := append([]json.RawMessage(nil), f.history...)
	best, bestErr := f.Verdict, f.stderr
	steps := 0
	type outc struct {
		v  *verdict
		se string
		ok bool
	}
	// try tests candidates in order, eight at a time; returns the first that fails alike.
	try := func(cands [][]json.RawMessage) int {
		par := workers()
		for at := 0; at < len(cands); at += par {
			if time.Now().After(until) {
				return -1
			}
			end := at + par
			if end > len(cands) {
				end = len(cands)
			}
			outs := make([]outc, end-at)
			var wg sync.WaitGroup
			for i := at; i < end; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					v, _, se, err := r.attempt(cands[i])
					outs[i-at] = outc{v, se, err == nil && v != nil && v.Class == f.Verdict.Class}
				}(i)
			}
			wg.Wait()
			for i := range outs {
				if outs[i].ok {
					best, bestErr = outs[i].v, outs[i].se
					steps++
					return at + i
				}
			}
		}
		return -1
	}
	if f.Verdict.Class == "stall" {
		return h, best, bestErr, 0
	}
	// earlier cases
	for size := len(h) - 1; size >= 1; size /= 2 {
		for again := true; again; {
			again = false
			var c [][]json.RawMessage
			for at := 0; at+size <= len(h)-1; at += size {
				x := append([]json.RawMessage(nil), h[:at]...)
				c = append(c, append(x, h[at+size:]...))
			}
			if k := try(c); k >= 0 {
				h = c[k]
				again = true
			}
		}
	}
	with := func(v any) []json.RawMessage {
		b, _ := json.Marshal(v)
		x := append([]json.RawMessage(nil), h[:len(h)-1]...)
		return append(x, b)
	}
	parse := func() any {
		d := json.NewDecoder(bytes.NewReader(h[len(h)-1]))
		d.UseNumber()
		var v any
		if d.Decode(&v) != nil {
			return nil
		}
		return v
	}
	fixSched := func() {
		root, ok := parse().(map[string]any)
		if !ok {
			return
		}
		sc, ok := root["sched"].(map[string]any)
		if !ok || sc["kind"] == "fixed" {
			return
		}
		_, res, _, err := r.attempt(h)
		if err != nil || res == nil || len(res.Segs) == 0 || len(res.Segs) > 20000 {
			return
		}
		root["sched"] = map[string]any{"kind": "fixed", "segs": res.Segs}
		c := [][]json.RawMessage{with(root)}
		if try(c) == 0 {
			h = c[0]
		}
	}
	pass := func() bool {
		root := parse()
		if root == nil {
			return false
		}
		moved := false
		for _, e := range edits(root) {
			if time.Now().After(until) {
				return false
			}
			_ = e
		}
		// regenerate after each success: positions change
		skip := 0
		for !time.Now().After(until) {
			root = parse()
			es := edits(root)
			if skip >= len(es) {
				break
			}
			end := skip + 64
			if end > len(es) {
				end = len(es)
			}
			var c [][]json.RawMessage
			for _, e := range es[skip:end] {
				cp := parse()
				c = append(c, with(e(cp)))
			}
			if k := try(c); k >= 0 {
				h = c[k]
				moved = true
				skip += k
				continue
			}
			skip = end
		}
		return moved
	}
	for i := 0; i < 6 && !time.Now().After(until); i++ {
		m := pass()
		if i == 0 {
			fixSched()
			continue
		}
		if !m {
			break
		}
	}
	return h, best, bestErr, steps
}

type editFn func(any) any

// edits lists simplifications of a JSON tree, coarse ones first.
func edits(root any) []editFn {
	type ce struct {
		w int
		f editFn
	}
	var out []ce
	var walk func(v any, set func(root any, nv any) any, get func(root any) any, depth int)
	size := func(v any) int { b, _ := json.Marshal(v); return len(b) }
	walk = func(v any, set func(any, any) any, get func(any) any, depth int) {
		switch v := v.(type) {
		case []any:
			n := len(v)
			for chunk := n; chunk >= 1; chunk /= 2 {
				for at := 0; at+chunk <= n; at += chunk {
					at, chunk := at, chunk
					out = append(out, ce{size(v) * chunk / n, func(r any) any {
						old := get(r).([]any)
						nv := append([]any{}, old[:at]...)
						nv = append(nv, old[at+chunk:]...)
						return set(r, nv)
					}})
				}
				if n > 64 && chunk < n/32 {
					break
				}
			}
			for i := range v {
				if n > 200 {
					break
				}
				i := i
				walk(v[i], func(r any, nv any) any { get(r).([]any)[i] = nv; return r }, func(r any) any { return get(r).([]any)[i] }, depth+1)
			}
		case map[string]any:
			ks := make([]string, 0, len(v))
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				out = append(out, ce{size(v[k]) + 1, func(r any) any { delete(get(r).(map[string]any), k); return r }})
				walk(v[k], func(r any, nv any) any { get(r).(map[string]any)[k] = nv; return r }, func(r any) any { return get(r).(map[string]any)[k] }, depth+1)
			}
		case string:
			if len(v) == 0 {
				return
			}
			rs := []rune(v)
			if len(rs) > 1 {
				out = append(out, ce{1, func(r any) any { return set(r, string(rs[:len(rs)/2])) }})
				out = append(out, ce{1, func(r any) any { return set(r, string(rs[len(rs)/2:])) }})
			}
		case json.Number:
			n, err := v.Int64()
			if err != nil || n == 0 {
				return
			}
			out = append(out, ce{1, func(r any) any { return set(r, json.Number("0")) }})
			if n > 1 || n < -1 {
				b, _ := json.Marshal(n / 2)
				out = append(out, ce{1, func(r any) any { return set(r, json.Number(b)) }})
				step := int64(1)
				if n < 0 {
					step = -1
				}
				c, _ := json.Marshal(n - step)
				out = append(out, ce{1, func(r any) any { return set(r, json.Number(c)) }})
			}
		case bool:
			if v {
				out = append(out, ce{1, func(r any) any { return set(r, false) }})
			}
		}
	}
	walk(root, func(r any, nv any) any { return nv }, func(r any) any { return r }, 0)
	sort.SliceStable(out, func(i, j int) bool { return out[i].w > out[j].w })
	fs := make([]editFn, len(out))
	for i := range out {
		fs[i] = out[i].f
	}
	return fs
}
