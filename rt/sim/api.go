package sim

// Gosched yields.
func Gosched() { Point("gosched") }

// Dying reports that the current task is being unwound at the end of a run.
func Dying() bool { return S == nil || S.cur.dying }

// SpawnBG starts a task from scheduler context (a timer function).
func (s *Sim) SpawnBG(name string, vc *VC, f func()) {
	cur := s.cur
	s.cur = nil
	t := s.spawn(name, false, f)
	s.cur = cur
	if s.opt.Race {
		t.vc.join(*vc)
	}
}

// DrawU64 serves the library's use of global random numbers: recorded as a
// choice so that replay sees the same value.
func DrawU64() uint64 {
	s := S
	if s == nil || s.cur.dying {
		return 0
	}
	s.cur.step++
	if s.opt.Replay {
		v, _ := s.replayed('r')
		s.record('r', v)
		return uint64(v)
	}
	v := s.rng.U64()
	s.record('r', int64(v))
	return v
}

// Sel is the outcome of a select statement.
type Sel struct {
	I  int
	V  any
	Ok bool
}

// SelectS is Select with one result.
func SelectS(hasDefault bool, cases ...Case) Sel {
	i, v, ok := Select(hasDefault, cases...)
	return Sel{i, v, ok}
}

// AsT converts a received value.
func AsT[T any](x any) (v T) {
	if x != nil {
		v = x.(T)
	}
	return
}

// MapSeq iterates over a map in an order the simulator chose.
func MapSeq[M ~map[K]V, K comparable, V any](m M, loc uint32) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for it := NewMapIter(m, loc); it.Next(); {
			if !yield(it.Key(), it.Value()) {
				return
			}
		}
	}
}

// ChanSeq is range over a channel.
func ChanSeq[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// SliceSeq is range over a slice with element values.
func SliceSeq[S ~[]E, E any](s S, loc uint32) func(func(int, E) bool) {
	return func(yield func(int, E) bool) {
		for i := range s {
			if !yield(i, R(&s[i], loc)) {
				return
			}
		}
	}
}

// Append is append.
func Append[S ~[]E, E any](loc uint32, s S, e ...E) S {
	if !Tracking() {
		return append(s, e...)
	}
	n := len(s)
	for i := range e {
		NoteR(&e[i], loc)
	}
	r := append(s, e...)
	if n > 0 && &r[0] != &s[0] { // moved: the old elements were read
		for i := range s {
			NoteR(&s[i], loc)
		}
		n = 0
	}
	for i := n; i < len(r); i++ {
		NoteW(&r[i], loc)
	}
	return r
}

// Copy is copy.
func Copy[D ~[]E, S ~[]E, E any](loc uint32, d D, s S) int {
	if Tracking() {
		for i := 0; i < len(d) && i < len(s); i++ {
			NoteR(&s[i], loc)
			NoteW(&d[i], loc)
		}
	}
	return copy(d, s)
}
