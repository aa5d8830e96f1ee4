package main

import (
	"fmt"
	"sort"
	"strings"
	"vsa/zsim/rt"
)

// The generators draw some sizes and delays from the constants the code under test uses, since
// that is where its behaviour may change (a chunk size, a buffer length, a grace period).
// Constants in consts_base.go have been there for long; others are tried more often. This
// only steers the search.

type dictionary struct{ old, fresh []int64 }

func dictOf(all map[string][]int64, base map[string][]int64, pkgs []string) (d dictionary) {
	seen := map[int64]bool{}
	var paths []string
	for p := range all {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		ok := len(pkgs) == 0
		for _, q := range pkgs {
			ok = ok || strings.HasSuffix(p, q)
		}
		if !ok {
			continue
		}
		known := map[int64]bool{}
		for _, v := range base[p] {
			known[v] = true
		}
		for _, v := range all[p] {
			switch {
			case !known[v]:
				d.fresh = append(d.fresh, v)
			case !seen[v]:
				d.old = append(d.old, v)
			}
			seen[v] = true
		}
	}
	return
}

// pick returns a constant, or 0 if there is none.
func (d dictionary) pick(r *rt.RNG, maxV int64) int64 {
	for i := 0; i < 8; i++ {
		l := d.old
		if len(d.fresh) > 0 && (len(l) == 0 || r.N(3) > 0) {
			l = d.fresh
		}
		if len(l) == 0 {
			return 0
		}
		if v := l[r.N(len(l))]; v <= maxV {
			return v
		}
	}
	return 0
}

// wideSize draws a number of items up to maxV that some constant of the given packages may divide.
func wideSize(r *rt.RNG, maxV int64, pkgs ...string) int64 {
	ints, _ := rt.Consts()
	if v := dictOf(ints, baseInts, pkgs).pick(r, maxV); v > 0 && r.N(3) > 0 {
		v += rt.Pick(r, -1, 0, 1, 1, v/4+1, v)
		return max(2, min(v, maxV))
	}
	return min(maxV, rt.Pick(r, int64(9), 17, 33, 40, 65, 70, 101, 129, 257, 300))
}

// steerDelays replaces a few delays by ones near the code's own durations.
func steerDelays(p *Plan, r *rt.RNG) {
	_, durs := rt.Consts()
	d := dictOf(durs, baseDurs, nil)
	limit := int64(2_000_000_000)
	if p.P["cached"] == 1 { // its ticker must not dominate the run
		limit = min(limit, 1000*max(p.P["cint"], 20_000))
	}
	for n := 1 + r.N(3); n > 0 && len(p.Ops) > 0; n-- {
		if v := d.pick(r, limit); v > 0 {
			p.Ops[r.N(len(p.Ops))].D = rt.Pick(r, r.I64(v), v-r.I64(v/50+1), v+r.I64(v/50+1), v+r.I64(v+1))
		}
	}
}

// printConsts writes the contents of consts_base.go.
func printConsts() {
	ints, durs := rt.Consts()
	fmt.Print("package main\n\n// Written by `harness consts`.\n\n")
	for _, x := range []struct {
		n string
		m map[string][]int64
	}{{"baseInts", ints}, {"baseDurs", durs}} {
		fmt.Printf("var %s = map[string][]int64{\n", x.n)
		var ks []string
		for k := range x.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("\t%q: {%s},\n", k, strings.ReplaceAll(strings.Trim(fmt.Sprint(x.m[k]), "[]"), " ", ", "))
		}
		fmt.Print("}\n\n")
	}
}
