//go:build go1.25

// Package simlog stands in for the functions of package log that end the
// process.
package simlog

import (
	"log"

	"github.com/qiniu/uip/verifsim/rt"
)

func Fatal(v ...any)            { log.Print(v...); rt.Exit(1) }
func Fatalf(f string, v ...any) { log.Printf(f, v...); rt.Exit(1) }
func Fatalln(v ...any)          { log.Println(v...); rt.Exit(1) }
