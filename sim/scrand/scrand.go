// Package scrand is crypto/rand with the simulator's randomness.
package scrand

import (
	"io"
	"vsa/zsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) {
	rt.YS()
	g := rt.NewRNG(rt.Rand("crypto/rand"))
	for i := range b {
		b[i] = byte(g.U64())
	}
	return len(b), nil
}
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	g := rt.NewRNG(rt.Rand("crypto/rand"))
	s := make([]byte, 26)
	for i := range s {
		s[i] = a[g.N(32)]
	}
	return string(s)
}
