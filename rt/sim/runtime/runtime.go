// Package runtime replaces package runtime inside the simulator.
package runtime

import (
	"runtime"

	"zz.test/sim"
)

type (
	Error    = runtime.Error
	Frame    = runtime.Frame
	Frames   = runtime.Frames
	Func     = runtime.Func
	MemStats = runtime.MemStats
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

func Gosched()                                  { sim.Gosched() }
func Goexit()                                   { runtime.Goexit() }
func NumCPU() int                               { return 4 }
func GOMAXPROCS(int) int                        { return 4 }
func NumGoroutine() int                         { return 4 }
func GC()                                       {}
func KeepAlive(x any)                           { runtime.KeepAlive(x) }
func SetFinalizer(any, any)                     {}
func Caller(n int) (uintptr, string, int, bool) { return runtime.Caller(n + 1) }
func Callers(n int, p []uintptr) int            { return runtime.Callers(n+1, p) }
func CallersFrames(p []uintptr) *Frames         { return runtime.CallersFrames(p) }
func FuncForPC(p uintptr) *Func                 { return runtime.FuncForPC(p) }
func ReadMemStats(m *MemStats)                  { runtime.ReadMemStats(m) }
func Stack(b []byte, all bool) int              { return runtime.Stack(b, all) }
func Version() string                           { return runtime.Version() }
