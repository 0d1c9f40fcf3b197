//go:build go1.25

package rt

import (
	"runtime"
	"strconv"
	"strings"
)

// getg returns the number of the calling goroutine.
func getg() uintptr

// goidOff is where the runtime keeps it in its goroutine descriptor; found out
// at start, as it differs between versions of Go.
var goidOff uintptr

func init() {
	var cand []uintptr
	for off := uintptr(8); off < 320; off += 8 {
		cand = append(cand, off)
	}
	for i := 0; i < 40; i++ {
		done := make(chan bool)
		go func() {
			defer close(done)
			var b [64]byte
			f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
			id, err := strconv.ParseUint(f[1], 10, 64)
			if err != nil {
				panic(err)
			}
			var keep []uintptr
			for _, off := range cand {
				goidOff = off
				if getg() == uintptr(id) {
					keep = append(keep, off)
				}
			}
			cand = keep
		}()
		<-done
	}
	if len(cand) == 0 {
		panic("rt: no goroutine number found")
	}
	goidOff = cand[0]
}
