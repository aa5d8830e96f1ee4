package main

// A small linearizability checker (Wing & Gong search with memoisation).

type linModel[S comparable] struct {
	init S
	// step returns every state the operation may lead to with the recorded result
	step func(s S, e *Ev) []S
	// pendingStep: outcomes of an operation that never returned (nil: same as step)
	pending func(s S, e *Ev) []S
}

// linearizable reports whether hist has a legal sequential order consistent
// with real time. At most 64 events.
func linearizable[S comparable](m linModel[S], hist []*Ev) bool {
	n := len(hist)
	if n > 64 {
		panic("history too long for the linearizability checker")
	}
	type key struct {
		mask uint64
		s    S
	}
	seen := map[key]bool{}
	var must uint64
	for i, e := range hist {
		if e.Ret != 0 {
			must |= 1 << i
		}
	}
	var dfs func(mask uint64, s S) bool
	dfs = func(mask uint64, s S) bool {
		if mask&must == must {
			return true
		}
		k := key{mask, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := ^uint64(0)
		for i, e := range hist {
			if mask&(1<<i) == 0 && e.Ret != 0 && e.Ret < minRet {
				minRet = e.Ret
			}
		}
		for i, e := range hist {
			if mask&(1<<i) != 0 || e.Call > minRet {
				continue
			}
			var outs []S
			if e.Ret == 0 && m.pending != nil {
				outs = m.pending(s, e)
			} else {
				outs = m.step(s, e)
			}
			for _, o := range outs {
				if dfs(mask|1<<i, o) {
					return true
				}
			}
		}
		return false
	}
	return dfs(0, m.init)
}
