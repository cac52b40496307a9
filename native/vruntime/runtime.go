// Package runtime is runtime with the number of processors of the run being replayed.
package runtime

import (
	"runtime"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

var BlockProfile = runtime.BlockProfile

type BlockProfileRecord = runtime.BlockProfileRecord

var Breakpoint = runtime.Breakpoint
var CPUProfile = runtime.CPUProfile
var Caller = runtime.Caller
var Callers = runtime.Callers
var CallersFrames = runtime.CallersFrames

type Cleanup = runtime.Cleanup

const Compiler = runtime.Compiler

type Error = runtime.Error
type Frame = runtime.Frame
type Frames = runtime.Frames
type Func = runtime.Func

var FuncForPC = runtime.FuncForPC
var GC = runtime.GC

const GOARCH = runtime.GOARCH

var GOMAXPROCS = runtime.GOMAXPROCS

const GOOS = runtime.GOOS

var GOROOT = runtime.GOROOT
var Goexit = runtime.Goexit
var GoroutineProfile = runtime.GoroutineProfile
var Gosched = runtime.Gosched
var KeepAlive = runtime.KeepAlive
var LockOSThread = runtime.LockOSThread
var MemProfile = runtime.MemProfile
var MemProfileRate = runtime.MemProfileRate

type MemProfileRecord = runtime.MemProfileRecord
type MemStats = runtime.MemStats

var MutexProfile = runtime.MutexProfile
var NumCgoCall = runtime.NumCgoCall
var NumGoroutine = runtime.NumGoroutine

type PanicNilError = runtime.PanicNilError
type Pinner = runtime.Pinner

var ReadMemStats = runtime.ReadMemStats
var ReadTrace = runtime.ReadTrace
var SetBlockProfileRate = runtime.SetBlockProfileRate
var SetCPUProfileRate = runtime.SetCPUProfileRate
var SetCgoTraceback = runtime.SetCgoTraceback
var SetDefaultGOMAXPROCS = runtime.SetDefaultGOMAXPROCS
var SetFinalizer = runtime.SetFinalizer
var SetMutexProfileFraction = runtime.SetMutexProfileFraction
var Stack = runtime.Stack

type StackRecord = runtime.StackRecord

var StartTrace = runtime.StartTrace
var StopTrace = runtime.StopTrace
var ThreadCreateProfile = runtime.ThreadCreateProfile

type TypeAssertionError = runtime.TypeAssertionError

var UnlockOSThread = runtime.UnlockOSThread
var Version = runtime.Version

func NumCPU() int { return vx.Param("numcpu", 4) }
