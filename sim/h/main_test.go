//go:build go1.25

package h

import "testing"

func TestWorker(t *testing.T) { worker(t) }
