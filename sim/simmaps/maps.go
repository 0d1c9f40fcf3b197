//go:build go1.25

// Package simmaps gives maps' iterators an order the simulator chooses.
package simmaps

import (
	"iter"

	"github.com/qiniu/uip/verifsim/rt"
)

// All replaces maps.All.
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it, k, v := rt.MapIter(m)
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

// Keys replaces maps.Keys.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		it, k, _ := rt.MapIter(m)
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}

// Values replaces maps.Values.
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		it, _, v := rt.MapIter(m)
		for it.Next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}
