// Package sfmt routes printing to the simulated process's stdout.
package sfmt

import (
	"fmt"
	"vsa/zsim/rt"
)

func Print(a ...any) (int, error)            { s := fmt.Sprint(a...); rt.Y(); rt.Out(s); return len(s), nil }
func Println(a ...any) (int, error)          { s := fmt.Sprintln(a...); rt.Y(); rt.Out(s); return len(s), nil }
func Printf(f string, a ...any) (int, error) { s := fmt.Sprintf(f, a...); rt.Y(); rt.Out(s); return len(s), nil }
