package rt

import "unsafe"

// Happens-before tracking (vector clocks), used to emulate the Go runtime's
// fatal "concurrent map" errors deterministically: two accesses to one map, at
// least one a write, with no happens-before edge between them.

type vclock struct{ c []uint32 }

type mapState struct {
	wT   int
	wC   uint32
	wSet bool
	r    []uint32
	keep any
}

func (t *Task) tick() { t.vc[t.id]++ }

func (t *Task) merge(o []uint32) {
	if len(o) > len(t.vc) {
		n := make([]uint32, len(o))
		copy(n, t.vc)
		t.vc = n
	}
	for i, x := range o {
		if x > t.vc[i] {
			t.vc[i] = x
		}
	}
}

func (v *vclock) merge(o []uint32) {
	if len(o) > len(v.c) {
		n := make([]uint32, len(o))
		copy(n, v.c)
		v.c = n
	}
	for i, x := range o {
		if x > v.c[i] {
			v.c[i] = x
		}
	}
}

// VC is a synchronisation object's clock.
type VC struct{ v vclock }

func (c *VC) Acquire() {
	if cur != nil && !cur.dead {
		cur.merge(c.v.c)
	}
}
func (c *VC) Release() {
	if cur != nil && !cur.dead {
		c.v.merge(cur.vc)
		cur.tick()
	}
}
func (c *VC) Reset() { c.v.c = c.v.c[:0] }

// AtomicSync gives an atomic variable at p acquire+release semantics.
func AtomicSync(p unsafe.Pointer) {
	t := cur
	if t == nil || t.dead {
		return
	}
	s := S
	v := s.syncVC[p]
	if v == nil {
		v = &vclock{}
		s.syncVC[p] = v
	}
	t.merge(v.c)
	v.merge(t.vc)
	t.tick()
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func mapAccess(p unsafe.Pointer, keep any, write bool) {
	t := cur
	if t == nil || t.dead || p == nil {
		return
	}
	s := S
	ms := s.maps[p]
	if ms == nil {
		ms = &mapState{keep: keep}
		s.maps[p] = ms
	}
	get := func(vc []uint32, i int) uint32 {
		if i < len(vc) {
			return vc[i]
		}
		return 0
	}
	if ms.wSet && ms.wT != t.id && get(t.vc, ms.wT) < ms.wC {
		s.Probes["map-race"]++
		if write {
			Fatal("concurrent map writes")
		}
		Fatal("concurrent map read and map write")
	}
	if write {
		for i, c := range ms.r {
			if i != t.id && c > 0 && get(t.vc, i) < c {
				s.Probes["map-race"]++
				Fatal("concurrent map read and map write")
			}
		}
		ms.wSet, ms.wT, ms.wC = true, t.id, t.vc[t.id]
		ms.r = ms.r[:0]
		return
	}
	for len(ms.r) <= t.id {
		ms.r = append(ms.r, 0)
	}
	ms.r[t.id] = t.vc[t.id]
}

// MR notes a read of map m, MW a write.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if cur != nil && S != nil {
		mapAccess(mapPtr(m), m, false)
	}
	return m
}
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if cur != nil && S != nil {
		mapAccess(mapPtr(m), m, true)
	}
	return m
}
