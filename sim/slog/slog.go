// Package slog is package log writing to the simulated stderr; Fatal exits the
// simulated process.
package slog

import (
	"fmt"
	"io"
	"vsa/zsim/rt"
)

func out(s string)                 { rt.Y(); rt.Tracef("log: %s", s) }
func Print(a ...any)               { out(fmt.Sprint(a...)) }
func Println(a ...any)             { out(fmt.Sprintln(a...)) }
func Printf(f string, a ...any)    { out(fmt.Sprintf(f, a...)) }
func Fatal(a ...any)               { out(fmt.Sprint(a...)); rt.Exit(1) }
func Fatalln(a ...any)             { out(fmt.Sprintln(a...)); rt.Exit(1) }
func Fatalf(f string, a ...any)    { out(fmt.Sprintf(f, a...)); rt.Exit(1) }
func Panic(a ...any)               { s := fmt.Sprint(a...); out(s); panic(s) }
func Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); out(s); panic(s) }
func SetFlags(int)                 {}
func SetPrefix(string)             {}
func SetOutput(io.Writer)          {}
