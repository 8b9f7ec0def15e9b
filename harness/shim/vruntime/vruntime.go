// Package vruntime stands in for runtime in rewritten sources.
package vruntime

import (
	"runtime"

	"verifharness/vs"
)

// Gosched lets other goroutines run.
func Gosched() { vs.Yield() }

// The rest is passed through.
func GC()                                       { runtime.GC() }
func Goexit()                                   { runtime.Goexit() }
func GOMAXPROCS(n int) int                      { return runtime.GOMAXPROCS(n) }
func NumCPU() int                               { return runtime.NumCPU() }
func NumGoroutine() int                         { return runtime.NumGoroutine() }
func KeepAlive(x any)                           { runtime.KeepAlive(x) }
func SetFinalizer(o, f any)                     { runtime.SetFinalizer(o, f) }
func Stack(b []byte, all bool) int              { return runtime.Stack(b, all) }
func LockOSThread()                             {}
func UnlockOSThread()                           {}
func Caller(n int) (uintptr, string, int, bool) { return runtime.Caller(n + 1) }

// Error is runtime.Error.
type Error = runtime.Error

// GOOS and GOARCH.
const (
	GOOS   = runtime.GOOS
	GOARCH = runtime.GOARCH
)

func Callers(n int, pc []uintptr) int { return runtime.Callers(n+1, pc) }
func FuncForPC(pc uintptr) *Func      { return runtime.FuncForPC(pc) }
func CallersFrames(c []uintptr) *Frames {
	return runtime.CallersFrames(c)
}
func ReadMemStats(m *MemStats) { runtime.ReadMemStats(m) }
func Version() string          { return runtime.Version() }
func GOROOT() string           { return runtime.GOROOT() }
func NumCgoCall() int64        { return runtime.NumCgoCall() }

// Types.
type (
	Func               = runtime.Func
	Frame              = runtime.Frame
	Frames             = runtime.Frames
	MemStats           = runtime.MemStats
	Pinner             = runtime.Pinner
	TypeAssertionError = runtime.TypeAssertionError
	PanicNilError      = runtime.PanicNilError
)

// Compiler is the compiler.
const Compiler = runtime.Compiler
