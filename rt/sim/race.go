package sim

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// VC is a vector clock indexed by task id.
type VC []uint32

func (v *VC) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}
func (v *VC) inc(i int) {
	v.grow(i + 1)
	(*v)[i]++
}
func (v *VC) join(o VC) {
	v.grow(len(o))
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Acquire makes everything released into v happen before what follows.
func Acquire(v *VC) {
	s := S
	if s == nil || !s.opt.Race || s.cur.dying {
		return
	}
	s.cur.vc.join(*v)
}

// Release publishes the current task's past into v.
func Release(v *VC) {
	s := S
	if s == nil || !s.opt.Race || s.cur.dying {
		return
	}
	v.join(s.cur.vc)
	s.cur.vc.inc(s.cur.ID)
}

// AtomicVC returns the clock attached to an atomically accessed address.
func AtomicVC(p unsafe.Pointer) *VC {
	s := S
	v := s.atoms[p]
	if v == nil {
		v = new(VC)
		s.atoms[p] = v
	}
	return v
}

// Tracking reports whether happens-before tracking is on.
func Tracking() bool { return S != nil && S.opt.Race && !S.cur.dying }

type acc struct {
	task int
	clk  uint32
	loc  uint32
}

// cell is the access history of one memory location: the last plain write,
// the last plain read and the last atomic write/read of each task.
type cell struct {
	w  acc
	hw bool
	r  []acc
	aw []acc
	ar []acc
}

const (
	aRead = iota
	aWrite
	aAtomicRead
	aAtomicWrite
)

// Locs is filled by generated code: descriptions of instrumented accesses.
var Locs []string

func AddLocs(l []string) uint32 {
	b := len(Locs)
	Locs = append(Locs, l...)
	return uint32(b)
}

func locName(l uint32) string {
	if int(l) < len(Locs) {
		return Locs[l]
	}
	if l >= dynBase {
		return dynLocs[l-dynBase]
	}
	return fmt.Sprintf("loc%d", l)
}

const dynBase = 1 << 30

var dynLocs []string
var dynIdx = map[uintptr]uint32{}

// dynLoc identifies a calling site in instrumented code (used for atomics).
func dynLoc() uint32 {
	var pcs [8]uintptr
	n := runtime.Callers(3, pcs[:])
	if n == 0 {
		return 0
	}
	// the first frame outside the simulator
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "zz.test/sim") {
			if id, ok := dynIdx[f.PC]; ok {
				return id
			}
			id := dynBase + uint32(len(dynLocs))
			fn := f.Function
			if j := strings.LastIndex(fn, "/"); j >= 0 {
				fn = fn[j+1:]
			}
			dynLocs = append(dynLocs, fmt.Sprintf("atomic access in %s", fn))
			dynIdx[f.PC] = id
			return id
		}
		if !more {
			return 0
		}
	}
}

func (s *Sim) hb(a acc) bool { return s.cur.vc.at(a.task) >= a.clk }

func put(l []acc, a acc) []acc {
	for i := range l {
		if l[i].task == a.task {
			l[i] = a
			return l
		}
	}
	return append(l, a)
}

func (s *Sim) access(c *cell, kind int, loc uint32) {
	t := s.cur
	me := acc{t.ID, t.vc.at(t.ID), loc}
	bad := func(o acc, ok string) {
		if o.task != t.ID && !s.hb(o) {
			s.reportRace(o, ok, me, kind)
		}
	}
	if c.hw {
		bad(c.w, "write")
	}
	switch kind {
	case aRead:
		for _, a := range c.aw {
			bad(a, "atomic write")
		}
		c.r = put(c.r, me)
	case aWrite:
		for _, a := range c.r {
			bad(a, "read")
		}
		for _, a := range c.aw {
			bad(a, "atomic write")
		}
		for _, a := range c.ar {
			bad(a, "atomic read")
		}
		c.w, c.hw = me, true
	case aAtomicRead:
		c.ar = put(c.ar, me)
	case aAtomicWrite:
		for _, a := range c.r {
			bad(a, "read")
		}
		c.aw = put(c.aw, me)
	}
}

var kindName = []string{"read", "write", "atomic read", "atomic write"}

func (s *Sim) reportRace(o acc, ok string, me acc, kind int) {
	s.Fail("race", "data race: %s at [%s] by %s and %s at [%s] by %s are not ordered by happens-before",
		ok, locName(o.loc), s.tasks[o.task].Name, kindName[kind], locName(me.loc), s.tasks[me.task].Name)
}

func (s *Sim) cellAt(p unsafe.Pointer) *cell {
	c := s.shadow[p]
	if c == nil {
		c = &cell{}
		s.shadow[p] = c
	}
	return c
}

// ---- leaves of a type: the scalar words an access covers

type leaf struct{ off uintptr }

var leafCache = map[reflect.Type][]leaf{}

func leaves(t reflect.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := appendLeaves(nil, t, 0)
	leafCache[t] = l
	return l
}

func appendLeaves(l []leaf, t reflect.Type, off uintptr) []leaf {
	if t.Size() == 0 || len(l) > 64 {
		return l
	}
	if strings.HasPrefix(t.PkgPath(), "zz.test/sim") {
		return l // synchronisation objects
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			l = appendLeaves(l, f.Type, off+f.Offset)
		}
	case reflect.Array:
		for i := 0; i < t.Len() && i < 16; i++ {
			l = appendLeaves(l, t.Elem(), off+uintptr(i)*t.Elem().Size())
		}
	default:
		l = append(l, leaf{off})
	}
	return l
}

func note[T any](p *T, kind int, loc uint32) {
	s := S
	if s == nil || !s.opt.Race || s.cur.dying || p == nil {
		return
	}
	for _, lf := range leaves(reflect.TypeFor[T]()) {
		s.access(s.cellAt(unsafe.Add(unsafe.Pointer(p), lf.off)), kind, loc)
	}
}

// R performs a plain read of shared memory.
func R[T any](p *T, loc uint32) T {
	if S != nil && p != nil {
		Point("read")
		note(p, aRead, loc)
	}
	return *p
}

// WRef is the target of a plain write.
type WRef[T any] struct {
	p   *T
	loc uint32
}

// W starts a plain write of shared memory; Set performs it.
func W[T any](p *T, loc uint32) WRef[T] { return WRef[T]{p, loc} }

func (w WRef[T]) Set(v T) {
	if S != nil && w.p != nil {
		Point("write")
		note(w.p, aWrite, w.loc)
	}
	*w.p = v
}

// NoteW records a plain write that a multiple assignment has just performed.
func NoteW[T any](p *T, loc uint32) {
	if S != nil {
		note(p, aWrite, loc)
	}
}

// NoteR records a plain read without a decision point.
func NoteR[T any](p *T, loc uint32) {
	if S != nil {
		note(p, aRead, loc)
	}
}

// Atomic records an atomic access of *p and applies its ordering. Plain
// accesses to the same address are checked against it.
func Atomic(p unsafe.Pointer, write, read bool) {
	s := S
	if s == nil || !s.opt.Race || s.cur.dying {
		return
	}
	v := AtomicVC(p)
	if read {
		s.cur.vc.join(*v)
	}
	loc := dynLoc()
	c := s.cellAt(p)
	if read {
		s.access(c, aAtomicRead, loc)
	}
	if write {
		s.access(c, aAtomicWrite, loc)
		v.join(s.cur.vc)
		s.cur.vc.inc(s.cur.ID)
	}
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func noteMap(p unsafe.Pointer, kind int, loc uint32) {
	s := S
	if s == nil || !s.opt.Race || s.cur.dying || p == nil {
		return
	}
	c := s.mapW[p]
	if c == nil {
		c = &cell{}
		s.mapW[p] = c
	}
	s.access(c, kind, loc)
}

// MR marks a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, loc uint32) M {
	if S != nil {
		Point("map read")
		noteMap(mapPtr(m), aRead, loc)
	}
	return m
}

// MW marks a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, loc uint32) M {
	if S != nil {
		Point("map write")
		noteMap(mapPtr(m), aWrite, loc)
	}
	return m
}

// MK registers a map key whose type has no natural order, so that iteration
// order can be made a function of execution order.
func MK[K comparable](k K) K {
	switch any(k).(type) {
	case int, string, int64, uint64, int32, uint32, bool:
		return k
	}
	if S != nil && !S.cur.dying {
		S.register(reflect.ValueOf(k))
	}
	return k
}
