package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"runtime"
	"time"

	"zz.test/repo/refreshcache"
	"zz.test/repo/refreshcache0"
	"zz.test/repo/refreshcache1"
	"zz.test/sim"
)

// ---------------------------------------------------------------- adaptor

type rcAd interface {
	Get(ctx context.Context, fid int, args []int64) (int64, error)
	Refresh(ctx context.Context, fid int, args []int64) (int64, error)
	Clear(ctx context.Context, fid int, args []int64) error
	SetRefresh(fid int)
	SetClear(fid int)
	Observe() rcObs // the read-only accessors
}

// rcFn is what the user's functions do: fid says which one runs, old is what
// the context offered as the old value (nil: none).
type rcFn struct {
	run func(fid int, ctx context.Context, args []int64, old func() *int64) (int64, error)
	clr func(fid int, ctx context.Context, args []int64, old func() *int64) error
}

// rcObs is what the read-only accessors returned.
type rcObs struct {
	val                            int64
	err                            error
	last, lastErr, lastT, lastErrT int64
	maxAge, errAge                 int64
}

type codec[T any] struct {
	enc func(int64) T
	dec func(T) int64
}

func (c codec[T]) old(v any) *int64 {
	x, ok := v.(T)
	if !ok {
		return nil
	}
	n := c.dec(x)
	return &n
}

// --- no arguments
type rc0[T any] struct {
	c    *refreshcache0.RefreshCache[T]
	d    *refreshcache0.RefreshData[T]
	f    rcFn
	cd   codec[T]
	data bool
}

func (a *rc0[T]) rf(fid int) refreshcache0.RefreshFunc[T] {
	return func(ctx context.Context) (T, error) {
		v, err := a.f.run(fid, ctx, nil, func() *int64 { return a.cd.old(ctx.Value(refreshcache0.OldValKey)) })
		return a.cd.enc(v), err
	}
}
func (a *rc0[T]) cf(fid int) refreshcache0.ClearFunc[T] {
	if fid < 0 {
		return nil
	}
	return func(ctx context.Context) error {
		return a.f.clr(fid, ctx, nil, func() *int64 { return a.cd.old(ctx.Value(refreshcache0.OldValKey)) })
	}
}
func (a *rc0[T]) Get(ctx context.Context, fid int, args []int64) (int64, error) {
	var v T
	var err error
	if a.data {
		v, err = a.d.Get(ctx, a.rf(fid))
	} else {
		v, err = a.c.Get(ctx)
	}
	return a.cd.dec(v), err
}
func (a *rc0[T]) Refresh(ctx context.Context, fid int, args []int64) (int64, error) {
	var v T
	var err error
	if a.data {
		v, err = a.d.Refresh(ctx, a.rf(fid))
	} else {
		v, err = a.c.Refresh(ctx)
	}
	return a.cd.dec(v), err
}
func (a *rc0[T]) Clear(ctx context.Context, fid int, args []int64) error {
	if a.data {
		return a.d.Clear(ctx, a.cf(fid))
	}
	return a.c.Clear(ctx)
}
func (a *rc0[T]) SetRefresh(fid int) { a.c.SetRefreshFunc(a.rf(fid)) }
func (a *rc0[T]) SetClear(fid int)   { a.c.SetClearFunc(a.cf(fid)) }
func (a *rc0[T]) Observe() rcObs {
	v, err := a.d.Raw()
	o := rcObs{val: a.cd.dec(v), err: err}
	o.last, o.lastErr = a.d.Last(), a.d.LastErr()
	o.lastT, o.lastErrT = a.d.LastTime().UnixNano(), a.d.LastErrTime().UnixNano()
	o.maxAge, o.errAge = a.d.MaxAge(), a.d.MaxErrAge()
	if !a.data {
		a.c.GetRefreshFunc()
		a.c.GetClearFunc()
	}
	return o
}

// --- one argument
type rc1[T any] struct {
	c    *refreshcache1.RefreshCache[T, int64]
	d    *refreshcache1.RefreshData[T, int64]
	f    rcFn
	cd   codec[T]
	data bool
}

func (a *rc1[T]) rf(fid int) refreshcache1.RefreshFunc[T, int64] {
	return func(ctx context.Context, arg int64) (T, error) {
		v, err := a.f.run(fid, ctx, []int64{arg}, func() *int64 { return a.cd.old(ctx.Value(refreshcache1.OldValKey)) })
		return a.cd.enc(v), err
	}
}
func (a *rc1[T]) cf(fid int) refreshcache1.ClearFunc[T, int64] {
	if fid < 0 {
		return nil
	}
	return func(ctx context.Context, arg int64) error {
		return a.f.clr(fid, ctx, []int64{arg}, func() *int64 { return a.cd.old(ctx.Value(refreshcache1.OldValKey)) })
	}
}
func (a *rc1[T]) Get(ctx context.Context, fid int, args []int64) (int64, error) {
	var v T
	var err error
	if a.data {
		v, err = a.d.Get(ctx, a.rf(fid), args[0])
	} else {
		v, err = a.c.Get(ctx, args[0])
	}
	return a.cd.dec(v), err
}
func (a *rc1[T]) Refresh(ctx context.Context, fid int, args []int64) (int64, error) {
	var v T
	var err error
	if a.data {
		v, err = a.d.Refresh(ctx, a.rf(fid), args[0])
	} else {
		v, err = a.c.Refresh(ctx, args[0])
	}
	return a.cd.dec(v), err
}
func (a *rc1[T]) Clear(ctx context.Context, fid int, args []int64) error {
	if a.data {
		return a.d.Clear(ctx, a.cf(fid), args[0])
	}
	return a.c.Clear(ctx, args[0])
}
func (a *rc1[T]) SetRefresh(fid int) { a.c.SetRefreshFunc(a.rf(fid)) }
func (a *rc1[T]) SetClear(fid int)   { a.c.SetClearFunc(a.cf(fid)) }
func (a *rc1[T]) Observe() rcObs {
	v, err := a.d.Raw()
	o := rcObs{val: a.cd.dec(v), err: err}
	o.last, o.lastErr = a.d.Last(), a.d.LastErr()
	o.lastT, o.lastErrT = a.d.LastTime().UnixNano(), a.d.LastErrTime().UnixNano()
	o.maxAge, o.errAge = a.d.MaxAge(), a.d.MaxErrAge()
	if !a.data {
		a.c.GetRefreshFunc()
		a.c.GetClearFunc()
	}
	return o
}

// --- variadic
type rcN[T any] struct {
	c    *refreshcache.RefreshCache[T, int64]
	d    *refreshcache.RefreshData[T, int64]
	f    rcFn
	cd   codec[T]
	data bool
}

func (a *rcN[T]) rf(fid int) refreshcache.RefreshFunc[T, int64] {
	return func(ctx context.Context, args ...int64) (T, error) {
		v, err := a.f.run(fid, ctx, args, func() *int64 { return a.cd.old(ctx.Value(refreshcache.OldValKey)) })
		return a.cd.enc(v), err
	}
}
func (a *rcN[T]) cf(fid int) refreshcache.ClearFunc[T, int64] {
	if fid < 0 {
		return nil
	}
	return func(ctx context.Context, args ...int64) error {
		return a.f.clr(fid, ctx, args, func() *int64 { return a.cd.old(ctx.Value(refreshcache.OldValKey)) })
	}
}
func (a *rcN[T]) Get(ctx context.Context, fid int, args []int64) (int64, error) {
	var v T
	var err error
	if a.data {
		v, err = a.d.Get(ctx, a.rf(fid), args...)
	} else {
		v, err = a.c.Get(ctx, args...)
	}
	return a.cd.dec(v), err
}
func (a *rcN[T]) Refresh(ctx context.Context, fid int, args []int64) (int64, error) {
	var v T
	var err error
	if a.data {
		v, err = a.d.Refresh(ctx, a.rf(fid), args...)
	} else {
		v, err = a.c.Refresh(ctx, args...)
	}
	return a.cd.dec(v), err
}
func (a *rcN[T]) Clear(ctx context.Context, fid int, args []int64) error {
	if a.data {
		return a.d.Clear(ctx, a.cf(fid), args...)
	}
	return a.c.Clear(ctx, args...)
}
func (a *rcN[T]) SetRefresh(fid int) { a.c.SetRefreshFunc(a.rf(fid)) }
func (a *rcN[T]) SetClear(fid int)   { a.c.SetClearFunc(a.cf(fid)) }
func (a *rcN[T]) Observe() rcObs {
	v, err := a.d.Raw()
	o := rcObs{val: a.cd.dec(v), err: err}
	o.last, o.lastErr = a.d.Last(), a.d.LastErr()
	o.lastT, o.lastErrT = a.d.LastTime().UnixNano(), a.d.LastErrTime().UnixNano()
	o.maxAge, o.errAge = a.d.MaxAge(), a.d.MaxErrAge()
	if !a.data {
		a.c.GetRefreshFunc()
		a.c.GetClearFunc()
	}
	return o
}

func mkRC[T any](variant int, data bool, maxAge, errAge time.Duration, f rcFn, cd codec[T]) rcAd {
	switch variant {
	case 0:
		a := &rc0[T]{f: f, cd: cd, data: data}
		var o []refreshcache0.RefreshDataOption[T]
		if errAge != 0 {
			o = append(o, func(*refreshcache0.RefreshData[T]) {}, refreshcache0.WithErrAge[T](errAge))
		}
		if data {
			a.d = refreshcache0.NewRefreshData[T](maxAge, o...)
		} else {
			a.c = refreshcache0.NewRefreshCache[T](a.rf(0), maxAge, o...)
			a.d = a.c.Data()
		}
		return a
	case 1:
		a := &rc1[T]{f: f, cd: cd, data: data}
		var o []refreshcache1.RefreshDataOption[T, int64]
		if errAge != 0 {
			o = append(o, func(*refreshcache1.RefreshData[T, int64]) {}, refreshcache1.WithErrAge[T, int64](errAge))
		}
		if data {
			a.d = refreshcache1.NewRefreshData[T, int64](maxAge, o...)
		} else {
			a.c = refreshcache1.NewRefreshCache[T, int64](a.rf(0), maxAge, o...)
			a.d = a.c.Data()
		}
		return a
	}
	a := &rcN[T]{f: f, cd: cd, data: data}
	var o []refreshcache.RefreshDataOption[T, int64]
	if errAge != 0 {
		o = append(o, func(*refreshcache.RefreshData[T, int64]) {}, refreshcache.WithErrAge[T, int64](errAge))
	}
	if data {
		a.d = refreshcache.NewRefreshData[T, int64](maxAge, o...)
	} else {
		a.c = refreshcache.NewRefreshCache[T, int64](a.rf(0), maxAge, o...)
		a.d = a.c.Data()
	}
	return a
}

func newRC(w *Work, f rcFn) rcAd {
	v, data := int(w.Cfg["variant"]), w.Cfg["data"] == 1
	ma, ea := time.Duration(w.Cfg["maxage"]), time.Duration(w.Cfg["errage"])
	switch w.Cfg["tmode"] {
	case 1:
		return mkRC(v, data, ma, ea, f, codec[*payload]{func(n int64) *payload {
			if n == 0 {
				return nil
			}
			return penc(n)
		}, func(p *payload) int64 {
			if p == nil {
				return 0
			}
			return pdec(p)
		}})
	case 2:
		return mkRC(v, data, ma, ea, f, codec[string]{func(n int64) string {
			if n == 0 {
				return ""
			}
			return fmt.Sprint(n)
		}, func(s string) int64 {
			var n int64
			fmt.Sscan(s, &n)
			return n
		}})
	case 3:
		return mkRC(v, data, ma, ea, f, codec[pairV]{func(n int64) pairV { return pairV{n, -n} }, func(p pairV) int64 {
			if p.a != -p.b {
				return -82
			}
			return p.a
		}})
	}
	if w.Cfg["zero"] > 0 && w.Cfg["zero"]%2 == 0 {
		return mkRC(v, data, ma, ea, f, codec[any]{func(n int64) any {
			if n == 0 {
				return nil
			}
			return n
		}, func(x any) int64 {
			n, _ := x.(int64)
			return n
		}})
	}
	return mkRC(v, data, ma, ea, f, codec[int64]{idv, idv})
}

// ---------------------------------------------------------------- history

const (
	oOK = iota
	oErr
	oPanic
	oExit
)

type rcErr struct{ run int }

// Unwrap: some failures are of kinds a library might be tempted to treat
// specially.
func (e *rcErr) Unwrap() error {
	switch e.run % 5 {
	case 1:
		return context.Canceled
	case 2:
		return context.DeadlineExceeded
	case 3:
		return io.EOF
	}
	return nil
}

func (e *rcErr) Error() string { return fmt.Sprintf("refresh %d failed", e.run) }

// rcErrU is an error that cannot be compared.
type rcErrU struct {
	run int
	why []string
}

func (e rcErrU) Error() string { return fmt.Sprintf("refresh %d failed", e.run) }

// errRun is the run whose error err is, 0: nil, -1: nobody's.
func errRun(err error) int {
	switch e := err.(type) {
	case nil:
		return 0
	case *rcErr:
		return e.run
	case rcErrU:
		return e.run
	}
	return -1
}

func sameErr(a, b error) bool { return errRun(a) == errRun(b) && errRun(a) >= 0 }

type rcRunRec struct {
	id       int
	fid      int
	op       *rcRec
	start    uint64
	end      uint64 // 0 while running
	out      int
	val      int64
	err      error
	old      *int64
	callRet  uint64 // when its caller returned (max while it has not)
	ctx      context.Context
	oldMoved bool // asked again, the context offered another old value
	argsOK   bool
	ctxOK    bool
	isClear  bool
	finished bool
}

type rcRec struct {
	op       Op
	kind     string
	inv      uint64
	ret      uint64
	val      int64
	err      error
	pan      bool
	runs     []*rcRunRec
	clrs     []*rcRunRec
	ctxd     bool      // a cancelled context was passed
	deadline time.Time // of the context passed, if any
	obs      rcObs
	exit     bool // performed in a task of its own that may exit
}

type rcRun struct {
	s       *sim.Sim
	w       *Work
	h       *Hist
	c       rcAd
	recs    []*rcRec
	runs    []*rcRunRec
	cur     map[int]*rcRec
	running int
	next    int
	over    int
	act     int
	observe bool
	hold    func(rec *rcRec, isClear bool)
	errs    map[int]*rcRunRec
	vals    map[int64]*rcRunRec
}

type ctxKey struct{}

// oldKey is the context key under which the variant offers the old value.
func oldKey(w *Work) any {
	switch w.Cfg["variant"] {
	case 0:
		return refreshcache0.OldValKey
	case 1:
		return refreshcache1.OldValKey
	}
	return refreshcache.OldValKey
}

func argsFor(w *Work, o Op) []int64 {
	switch w.Cfg["variant"] {
	case 0:
		return nil
	case 1:
		return []int64{int64(o.ID)*10 + 7}
	}
	var a []int64
	for i := 0; i < o.ID%4; i++ {
		a = append(a, int64(o.ID)*10+int64(i))
	}
	return a
}

func (r *rcRun) fn(fid int, isClear bool, ctx context.Context, args []int64, old func() *int64) (int64, error) {
	s := r.s
	rec := r.cur[s.Cur().ID]
	if rec == nil {
		s.Fail("detached", "a user function ran outside any call")
		return 0, nil
	}
	r.next++
	x := &rcRunRec{id: r.next, fid: fid, op: rec, start: s.Seq(), old: old(), callRet: inf, isClear: isClear}
	x.out = int(rec.op.A)
	x.val = int64(r.next) * 100
	if int64(r.next) == r.w.Cfg["zero"] {
		x.val = 0 // a legitimate result that happens to be the zero value
	}
	if isClear {
		rec.clrs = append(rec.clrs, x)
	} else {
		rec.runs = append(rec.runs, x)
		r.runs = append(r.runs, x)
		r.running++
		if r.running > 1 {
			s.Fail("overlap", "two refresh functions run at the same time")
		}
	}
	want := argsFor(r.w, rec.op)
	x.argsOK = len(want) == len(args)
	for i := range args {
		if x.argsOK && args[i] != want[i] {
			x.argsOK = false
		}
	}
	id, _ := ctx.Value(ctxKey{}).(int)
	at, has := ctx.Deadline()
	x.ctxOK = id == rec.op.ID+1 && (ctx.Err() != nil) == rec.ctxd && has == !rec.deadline.IsZero() && (!has || at.Equal(rec.deadline))
	x.ctx = ctx
	if r.h.on {
		o := "none"
		if x.old != nil {
			o = fmt.Sprint(*x.old)
		}
		r.h.logf("[%d] t=%dms %s#%d fid=%d starts in op#%d old=%s", x.start, (sim.Now()-sim.Epoch)/msec, map[bool]string{true: "clear", false: "refresh"}[isClear], x.id, fid, rec.op.ID, o)
	}
	sim.Point("user function")
	if r.hold != nil {
		r.hold(rec, isClear)
	}
	if rec.op.B > 0 {
		sim.Sleep(rec.op.B)
	}
	for i := int64(0); i < rec.op.C; i++ {
		sim.Point("user function")
	}
	if again := old(); (again == nil) != (x.old == nil) || again != nil && *again != *x.old {
		x.oldMoved = true
	}
	if x.out == oErr {
		if x.id%6 == 5 {
			x.err = rcErrU{x.id, nil}
		} else {
			x.err = &rcErr{x.id}
		}
		r.errs[x.id] = x
	}
	if !isClear && x.out == oOK {
		r.vals[x.val] = x
	}
	if !isClear {
		r.running--
	}
	x.end = s.Seq()
	x.finished = true
	if r.h.on {
		r.h.logf("[%d] t=%dms user function #%d ends: %s", x.end, (sim.Now()-sim.Epoch)/msec, x.id, []string{"ok", "error", "panic", "exit"}[x.out])
	}
	switch x.out {
	case oPanic:
		s.Fault("user function panics")
		injectPanic(x.id + x.op.op.ID)
	case oExit:
		s.Fault("user function exits its goroutine")
		runtime.Goexit()
	case oErr:
		s.Fault("user function fails")
		if isClear {
			return 0, x.err
		}
		if rec.op.D%2 == 0 {
			return x.val, x.err
		}
		return 0, x.err
	}
	return x.val, nil
}

func (r *rcRun) do(o Op) {
	s := r.s
	rec := &rcRec{op: o, kind: o.Kind}
	r.act++
	if r.act > 1 {
		r.over++
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, o.ID+1)
	if o.D%5 == 1 {
		c2, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c2
		rec.ctxd = true
	}
	if o.D%11 == 3 {
		rec.deadline = time.Now().Add(1000 * time.Hour)
		c2, cancel := context.WithDeadline(ctx, rec.deadline)
		defer cancel()
		ctx = c2
	}
	if o.D%7 == 2 {
		// The caller is itself inside a refresh function of some other cache,
		// whose old value its context still carries.
		ctx = context.WithValue(ctx, oldKey(r.w), int64(424242))
	}
	args := argsFor(r.w, o)
	fid := o.Key
	call := func() {
		switch o.Kind {
		case "get":
			rec.val, rec.err = r.c.Get(ctx, fid, args)
		case "refresh":
			rec.val, rec.err = r.c.Refresh(ctx, fid, args)
		case "clear":
			f := fid
			if o.D%3 == 0 {
				f = -1
			}
			rec.op.Key = f
			rec.err = r.c.Clear(ctx, f, args)
		case "setf":
			if r.w.Cfg["data"] == 0 {
				r.c.SetRefresh(fid)
			}
		case "setc":
			f := fid
			if o.D%4 == 0 {
				f = -1
			}
			rec.op.Key = f
			if r.w.Cfg["data"] == 0 {
				r.c.SetClear(f)
			}
		case "observe":
			rec.obs = r.c.Observe()
		case "sleep":
			sim.Sleep(o.B)
		}
	}
	rec.inv = s.Seq()
	var pv any
	var pan bool
	if o.A == oExit && (o.Kind == "get" || o.Kind == "refresh" || o.Kind == "clear") {
		rec.exit = true
		rec.pan = true
		t := s.Spawn("exiter", func() {
			s.SetOp(100000 + o.ID)
			id := s.Cur().ID
			r.cur[id] = rec
			call()
			rec.pan = false
			rec.ret = s.Seq()
		})
		s.Join(t)
	} else {
		id := s.Cur().ID
		r.cur[id] = rec
		pv, pan = guard(call)
		r.cur[id] = nil
		rec.pan = pan
	}
	if rec.ret == 0 {
		rec.ret = s.Seq()
	}
	r.act--
	for _, x := range append(append([]*rcRunRec{}, rec.runs...), rec.clrs...) {
		x.callRet = rec.ret
		if (x.ctx.Err() != nil) != rec.ctxd {
			x.ctxOK = false // cancelled behind the caller's back
		}
	}
	if pan {
		if !wasInjected(pv) {
			s.Fail("panic", "%s panicked: %v", o.Kind, pv)
		}
	}
	r.recs = append(r.recs, rec)
	if r.h.on {
		r.h.logf("[%d-%d] t=%dms %s op#%d %s(f%d) -> %d %v%s (ran %d)", rec.inv, rec.ret, (sim.Now()-sim.Epoch)/msec, s.Cur().Name, o.ID, o.Kind, rec.op.Key, rec.val, rec.err, map[bool]string{true: " PANIC/EXIT"}[rec.pan], len(rec.runs)+len(rec.clrs))
	}
}

func newRCRun(s *sim.Sim, w *Work, h *Hist) *rcRun {
	r := &rcRun{s: s, w: w, h: h, cur: map[int]*rcRec{}, errs: map[int]*rcRunRec{}, vals: map[int64]*rcRunRec{}}
	r.c = newRC(w, rcFn{
		run: func(fid int, ctx context.Context, args []int64, old func() *int64) (int64, error) {
			return r.fn(fid, false, ctx, args, old)
		},
		clr: func(fid int, ctx context.Context, args []int64, old func() *int64) error {
			_, err := r.fn(fid, true, ctx, args, old)
			return err
		},
	})
	return r
}

func (r *rcRun) all() {
	for ph := 0; ph < r.w.phases(); ph++ {
		over := r.over
		r.h.logf("-- phase %d", ph)
		runPhase(r.s, r.w, ph, func(task int, o Op) { r.do(o) })
		if r.over > over {
			r.h.nontriv = true
		}
		if r.s.Violation() != nil {
			return
		}
		r.h.logf("-- quiet")
		if r.observe {
			r.do(Op{ID: 900005 + ph*10, Kind: "observe"})
		}
		r.do(Op{ID: 900000 + ph*10, Kind: "get", Key: 0})
		r.do(Op{ID: 900001 + ph*10, Kind: "get", Key: 0})
		if r.s.Violation() != nil {
			return
		}
	}
}

// ---------------------------------------------------------------- rules

type rcRule struct{ single, fresh, errage, honour, panics bool }

func (r *rcRun) maxClock(a, b uint64) int64 { _, h := r.s.ClockRange(a, b); return h }
func (r *rcRun) minClock(a, b uint64) int64 { l, _ := r.s.ClockRange(a, b); return l }

func (x *rcRunRec) completed() bool { return x.out == oOK || x.out == oErr }

func (r *rcRun) name(x *rcRunRec) string {
	if x == nil {
		return "none"
	}
	return fmt.Sprintf("refresh#%d (op#%d, [%d-%d], %s)", x.id, x.op.op.ID, x.start, x.end, []string{"ok", "error", "panic", "exit"}[x.out])
}

func (r *rcRun) check(rule rcRule) {
	s := r.s
	maxAge, errAge := r.w.Cfg["maxage"], r.w.Cfg["errage"]
	ms := func(t int64) float64 { return float64(t) / 1e6 }
	clears := []*rcRec{}
	for _, g := range r.recs {
		if g.kind == "clear" {
			clears = append(clears, g)
		}
	}
	// --- each run
	var lastOK *rcRunRec
	for i, n := range r.runs {
		r.h.checks++
		if rule.honour {
			if !n.argsOK {
				s.Fail("args", "%s: the refresh function did not receive its caller's arguments", r.name(n))
				return
			}
			if n.oldMoved {
				s.Fail("old-value", "%s: the old value offered changed while the refresh function ran", r.name(n))
				return
			}
			if !n.ctxOK {
				s.Fail("context", "%s: the refresh function did not receive its caller's context", r.name(n))
				return
			}
			want := int64(0)
			if lastOK != nil {
				want = lastOK.val
			}
			if n.old == nil || *n.old != want {
				got := "none"
				if n.old != nil {
					got = fmt.Sprint(*n.old)
				}
				s.Fail("old-value", "%s: the old value offered was %s, the most recent successful refresh produced %d", r.name(n), got, want)
				return
			}
			if !r.legalFunc(n.op, "setf", n.fid, 0) {
				s.Fail("function", "%s ran refresh function %d, which was not installed at any instant of the call", r.name(n), n.fid)
				return
			}
		}
		if n.op.kind == "clear" || n.op.kind != "get" && n.op.kind != "refresh" {
			s.Fail("stray-run", "%s: a refresh function ran inside %s", r.name(n), n.op.kind)
			return
		}
		var p *rcRunRec
		if i > 0 {
			p = r.runs[i-1]
		}
		if n.op.kind == "get" && p != nil && p.completed() {
			lim := p.callRet
			if n.start < lim {
				lim = n.start
			}
			if lim < p.end {
				lim = p.end
			}
			age := r.maxClock(p.end, n.start) - r.minClock(p.end, lim)
			if p.out == oOK && (rule.single || rule.fresh) {
				ok := maxAge >= 0 && age >= maxAge
				for _, c := range clears {
					if c.ret > p.end && c.inv < n.start {
						ok = true
					}
				}
				if !ok {
					s.Fail("stampede", "%s ran although %s had succeeded %.3f ms (at most) before, the maximum age is %.3f ms and nothing cleared it", r.name(n), r.name(p), ms(age), ms(maxAge))
					return
				}
			}
			if p.out == oErr && (rule.single || rule.errage) {
				if errAge > 0 && age < errAge {
					s.Fail("error-age", "%s ran although %s had failed %.3f ms (at most) before and the error age is %.3f ms", r.name(n), r.name(p), ms(age), ms(errAge))
					return
				}
			}
		}
		if n.out == oOK {
			lastOK = n
		}
	}
	// --- each call
	for _, g := range r.recs {
		r.h.checks++
		switch g.kind {
		case "get", "refresh":
			if rule.single && (len(g.runs) > 1 || g.kind == "refresh" && len(g.runs) != 1) {
				s.Fail("run-count", "%s (op#%d) ran the refresh function %d times", g.kind, g.op.ID, len(g.runs))
				return
			}
			if len(g.runs) > 0 {
				x := g.runs[len(g.runs)-1]
				switch x.out {
				case oPanic, oExit:
					if rule.panics && !g.pan {
						s.Fail("swallowed", "op#%d %s returned normally (%d, %v) although its refresh function %s", g.op.ID, g.kind, g.val, g.err, []string{"", "", "panicked", "exited"}[x.out])
						return
					}
				case oOK:
					if (rule.single || rule.fresh) && (g.pan || g.err != nil || g.val != x.val) {
						s.Fail("own-result", "op#%d %s ran %s producing %d but returned %d, %v", g.op.ID, g.kind, r.name(x), x.val, g.val, g.err)
						return
					}
				case oErr:
					if (rule.single || rule.errage) && (g.pan || !sameErr(g.err, x.err)) {
						s.Fail("own-result", "op#%d %s ran %s failing with %v but returned %d, %v", g.op.ID, g.kind, r.name(x), x.err, g.val, g.err)
						return
					}
				}
				continue
			}
			if g.pan {
				s.Fail("panic", "op#%d %s panicked without running a user function", g.op.ID, g.kind)
				return
			}
			if g.err == nil && (rule.fresh || rule.errage) && r.vals[g.val] == nil {
				s.Fail("invented", "op#%d Get returned value %d without error; no refresh produced it", g.op.ID, g.val)
				return
			}
			if g.err == nil && rule.fresh {
				p := r.vals[g.val]
				if p.end > g.ret {
					s.Fail("future", "op#%d Get returned the value of %s, which had not ended", g.op.ID, r.name(p))
					return
				}
				for _, q := range r.runs {
					if q.completed() && q.start > p.end && q.callRet < g.inv {
						s.Fail("superseded", "op#%d Get [%d-%d] returned the value of %s although %s had completed before", g.op.ID, g.inv, g.ret, r.name(p), r.name(q))
						return
					}
				}
				age := r.hitAge(g, p)
				if maxAge >= 0 && age >= maxAge {
					s.Fail("stale", "op#%d Get [%d-%d] returned the value of %s at an age of at least %.3f ms; the maximum age is %.3f ms", g.op.ID, g.inv, g.ret, r.name(p), ms(age), ms(maxAge))
					return
				}
			}
			if g.err == nil && (rule.fresh || rule.honour) && r.vals[g.val] != nil {
				p := r.vals[g.val]
				for _, c := range clears {
					if c.inv > p.callRet && c.ret < g.inv {
						s.Fail("cleared", "op#%d Get [%d-%d] returned the value of %s although Clear op#%d [%d-%d] had finished before", g.op.ID, g.inv, g.ret, r.name(p), c.op.ID, c.inv, c.ret)
						return
					}
				}
			}
			if g.err != nil && rule.errage {
				p := r.errs[errRun(g.err)]
				if p == nil || p.isClear {
					s.Fail("invented-error", "op#%d Get returned error %v that no refresh returned", g.op.ID, g.err)
					return
				}
				if errAge <= 0 {
					s.Fail("no-error-age", "op#%d Get returned the cached error of %s; no error age is set", g.op.ID, r.name(p))
					return
				}
				for _, q := range r.runs {
					if q.completed() && q.start > p.end && q.callRet < g.inv {
						s.Fail("superseded-error", "op#%d Get [%d-%d] returned the error of %s although %s had completed before", g.op.ID, g.inv, g.ret, r.name(p), r.name(q))
						return
					}
				}
				age := r.hitAge(g, p)
				if age >= errAge {
					s.Fail("old-error", "op#%d Get [%d-%d] returned the error of %s at an age of at least %.3f ms; the error age is %.3f ms", g.op.ID, g.inv, g.ret, r.name(p), ms(age), ms(errAge))
					return
				}
			}
		case "clear":
			if rule.honour {
				if len(g.clrs) > 1 {
					s.Fail("clear-count", "Clear op#%d ran the clear function %d times", g.op.ID, len(g.clrs))
					return
				}
				if len(g.clrs) == 0 {
					if !r.legalFunc(g, "setc", -1, -1) {
						s.Fail("clear-count", "Clear op#%d did not run the clear function", g.op.ID)
						return
					}
					if g.err != nil {
						s.Fail("clear-error", "Clear op#%d returned %v without running a clear function", g.op.ID, g.err)
						return
					}
					continue
				}
				x := g.clrs[0]
				if !r.legalFunc(g, "setc", x.fid, -1) {
					s.Fail("function", "Clear op#%d ran clear function %d, which was not installed at any instant of the call", g.op.ID, x.fid)
					return
				}
				if !x.argsOK || !x.ctxOK {
					s.Fail("args", "Clear op#%d: the clear function did not receive its caller's arguments and context", g.op.ID)
					return
				}
				if !g.pan && !sameErr(g.err, x.err) {
					s.Fail("clear-error", "Clear op#%d returned %v, its clear function %v", g.op.ID, g.err, x.err)
					return
				}
				if x.old == nil {
					s.Fail("old-value", "Clear op#%d: the clear function was offered no old value", g.op.ID)
					return
				}
				if x.oldMoved {
					s.Fail("old-value", "Clear op#%d: the old value offered changed while the clear function ran", g.op.ID)
					return
				}
				ok := false
				if *x.old == 0 {
					ok = true
					for _, q := range r.runs {
						if q.out == oOK && q.callRet < g.inv {
							ok = false
						}
					}
				} else if p := r.vals[*x.old]; p != nil && p.end < x.start {
					ok = true
					for _, q := range r.runs {
						if q.out == oOK && q.start > p.end && q.callRet < g.inv {
							ok = false
						}
					}
				}
				if !ok {
					s.Fail("old-value", "Clear op#%d [%d-%d]: the clear function was offered %d, which was not the cached value at any instant of the call", g.op.ID, g.inv, g.ret, *x.old)
					return
				}
			}
			if rule.panics && len(g.clrs) > 0 {
				x := g.clrs[0]
				if !x.completed() && !g.pan {
					s.Fail("swallowed", "Clear op#%d returned normally although its clear function %s", g.op.ID, []string{"", "", "panicked", "exited"}[x.out])
					return
				}
			}
		}
	}
}

// hitAge is the least age at which call g can have judged the result of p
// recent. The judgement and the fetch of the result are two steps: g may have
// judged an earlier result of the same kind that was still current when g
// began, and then have fetched the newer p (this only matters when the clock
// stepped back in between).
func (r *rcRun) hitAge(g *rcRec, p *rcRunRec) int64 {
	age := func(q *rcRunRec) int64 {
		return r.minClock(g.inv, g.ret) - r.maxClock(q.end, min(q.callRet, g.ret))
	}
	best := age(p)
	for i := len(r.runs) - 1; i >= 0; i-- {
		q := r.runs[i]
		if q.start >= p.start || !q.completed() {
			continue
		}
		if q.out == p.out {
			best = min(best, age(q))
		}
		if q.callRet < g.inv {
			break
		}
	}
	return best
}

// legalFunc: fid was installed at some instant of g.
func (r *rcRun) legalFunc(g *rcRec, set string, fid, initial int) bool {
	if r.w.Cfg["data"] == 1 {
		return g.op.Key == fid
	}
	legal := func(inv, ret uint64) bool {
		if inv > g.ret {
			return false
		}
		for _, q := range r.recs {
			if q.kind == set && q.inv > ret && q.ret < g.inv {
				return false
			}
		}
		return true
	}
	if fid == initial && legal(0, 0) {
		return true
	}
	for _, q := range r.recs {
		if q.kind == set && q.op.Key == fid && legal(q.inv, q.ret) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- workload

type rcMix struct {
	base  []int // get refresh clear setf setc observe sleep
	perr  []int // per cent of failing functions, one drawn
	ppan  []int
	errs  []int64
	back  bool
	tmode []int
	zero  bool // one refresh may produce the zero value
}

var rcKinds = []string{"get", "refresh", "clear", "setf", "setc", "observe", "sleep"}

const century = int64(100) * 365 * 24 * int64(time.Hour)

func genRC(r *sim.Rand, deep bool, mx rcMix) *Work {
	w := &Work{Cfg: map[string]int64{}}
	tasks := 2 + r.Intn(3)
	w.Cfg["tasks"] = int64(tasks)
	w.Cfg["variant"] = int64(r.Intn(3))
	if r.Intn(3) == 0 {
		w.Cfg["data"] = 1
	}
	w.Cfg["tmode"] = int64(mx.tmode[r.Intn(len(mx.tmode))])
	w.Cfg["maxage"] = []int64{-1, -int64(time.Hour), 0, 10 * msec, 10 * msec, 1000 * msec, 1000 * msec, century, math.MaxInt64, 1}[r.Intn(10)]
	w.Cfg["errage"] = mx.errs[r.Intn(len(mx.errs))]
	var far []int64 // ages of any length, which the clock has to leap for
	if r.Intn(5) == 0 {
		far = append(far, anyAge(r))
		w.Cfg["maxage"] = far[0]
	}
	if r.Intn(5) == 0 && w.Cfg["errage"] > 0 {
		far = append(far, anyAge(r))
		w.Cfg["errage"] = far[len(far)-1]
	}
	if mx.zero && r.Intn(5) == 0 {
		w.Cfg["zero"] = int64(1 + r.Intn(6))
	}
	perr, ppan := mx.perr[r.Intn(len(mx.perr))], mx.ppan[r.Intn(len(mx.ppan))]
	phases := 1 + r.Intn(2)
	if deep {
		phases = 1 + r.Intn(3)
	}
	id := 0
	slow := r.Intn(3) == 0
	for ph := 0; ph < phases; ph++ {
		wts := swarm(r, mx.base)
		if wts[0]+wts[1] == 0 {
			wts[0] = 4
		}
		n := 1 + r.Intn(5)
		if deep {
			n = 1 + r.Intn(8)
		}
		for t := 0; t < tasks; t++ {
			for i := 0; i < n; i++ {
				id++
				o := Op{ID: id, Phase: ph, Task: t, Kind: rcKinds[pickW(r, wts)], Key: r.Intn(3)}
				if r.Intn(100) < perr {
					o.A = oErr
				}
				if r.Intn(100) < ppan {
					o.A = int64(oPanic + r.Intn(2))
				}
				if slow && r.Intn(3) == 0 {
					o.B = []int64{1 * msec, 10 * msec, 1000 * msec, 5 * msec}[r.Intn(4)]
					if far != nil && r.Intn(2) == 0 {
						o.B = far[r.Intn(len(far))] / int64(1+r.Intn(2))
					}
				}
				o.C = int64(r.Intn(4))
				o.D = int64(r.U64() % 1000)
				if o.Kind == "sleep" {
					o.B = []int64{1 * msec, 5 * msec, 10*msec + 1, 1000*msec + 1}[r.Intn(4)]
					if far != nil && r.Intn(2) == 0 {
						o.B = aroundAge(r, far[r.Intn(len(far))])
					}
				}
				w.Ops = append(w.Ops, o)
			}
		}
	}
	w.Cfg["phases"] = int64(phases)
	w.Strat = stratFor(r, 40*len(w.Ops)/tasks+40)
	w.Strat.Leaps = []int64{1 * msec, 5 * msec, 10 * msec, 500 * msec, 1000 * msec, 1}
	w.Strat.PTime = []float64{0, 0.005, 0.02, 0.05, 0.15}[r.Intn(5)]
	if mx.back && r.Intn(6) == 0 {
		w.Strat.PBack = 0.3
	}
	for _, d := range far {
		w.Strat.Leaps = append(w.Strat.Leaps, d, aroundAge(r, d), aroundAge(r, d))
		if d > 24*int64(time.Hour) {
			w.Strat.PBack = 0
		}
	}
	return w
}

// anyAge: a microsecond to two years.
func anyAge(r *sim.Rand) int64 {
	d := int64(time.Microsecond) << r.Intn(46)
	d += int64(r.U64() % uint64(d))
	if r.Intn(2) == 0 { // a round one
		for _, u := range []time.Duration{time.Hour, time.Minute, time.Second, time.Millisecond} {
			if d > int64(u) {
				d -= d % int64(u)
				break
			}
		}
	}
	return d
}

// aroundAge: an instant not far from d.
func aroundAge(r *sim.Rand, d int64) int64 {
	switch r.Intn(5) {
	case 0:
		return d + 1
	case 1:
		return max(d-1, 1)
	case 2:
		return d + int64(r.U64()%uint64(time.Second))
	case 3:
		return max(d-int64(r.U64()%uint64(time.Second)), 1)
	}
	return max(d/2, 1)
}

func init() {
	real := []string{"refreshcache", "refreshcache0", "refreshcache1"}
	stub := []string{"clock (simulated)", "sync.Mutex, sync/atomic (simulated)", "user refresh/clear functions (generated)"}
	errs := []int64{0, 0, -5, 5 * msec, 500 * msec, century, math.MaxInt64}
	add := func(id string, mx rcMix, rule rcRule, what string, notes ...string) {
		p := &Prop{
			ID:  id,
			Gen: func(r *sim.Rand, deep bool) *Work { return genRC(r, deep, mx) },
			Run: func(s *sim.Sim, w *Work, h *Hist) {
				r := newRCRun(s, w, h)
				r.all()
				if s.Violation() == nil {
					r.check(rule)
				}
			},
			Rule: "random workloads on one of the three variants (cache or bare data API), 2-4 tasks, maximum and error ages from negative to the largest duration, refresh functions that take time, " + what + ", under a seeded scheduler and a leaping clock; non-trivial when calls of different tasks overlapped; distinct by execution hash",
			Real: real, Stub: stub, Notes: notes,
		}
		if rule.panics {
			p.Faulty = func(class string) bool { return true }
			p.Simplify = func(o *Op) bool {
				if o.A != oPanic && o.A != oExit {
					return false
				}
				o.A = 0
				return true
			}
		}
		register(p)
	}
	add("C09", rcMix{base: []int{8, 2, 1, 1, 0, 1, 2}, perr: []int{0, 0, 20, 60}, ppan: []int{0}, errs: errs, back: true, tmode: []int{0, 2, 3}, zero: true}, rcRule{single: true}, "fail or succeed")
	add("C10", rcMix{base: []int{8, 3, 2, 0, 0, 0, 2}, perr: []int{0, 10, 40}, ppan: []int{0}, errs: errs, back: true, tmode: []int{0, 2, 3}, zero: true}, rcRule{fresh: true}, "fail or succeed")
	add("C11", rcMix{base: []int{8, 3, 1, 0, 0, 0, 2}, perr: []int{30, 60, 90}, ppan: []int{0}, errs: []int64{0, -5, 5 * msec, 5 * msec, 500 * msec, 500 * msec, century, math.MaxInt64}, back: true, tmode: []int{0, 3}, zero: true}, rcRule{errage: true}, "mostly fail")
	add("C12", rcMix{base: []int{6, 3, 4, 2, 2, 0, 1}, perr: []int{0, 20, 50}, ppan: []int{0}, errs: errs, tmode: []int{0, 1, 2, 3}}, rcRule{honour: true}, "fail or succeed, functions are replaced and Clear is called")
	add("C13", rcMix{base: []int{8, 3, 2, 1, 1, 0, 1}, perr: []int{0, 20}, ppan: []int{15, 40, 70}, errs: errs, tmode: []int{0, 3}}, rcRule{single: true, fresh: true, errage: true, panics: true, honour: true}, "panic or exit their goroutine")
}
