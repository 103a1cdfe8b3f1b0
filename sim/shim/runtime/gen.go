// Code generated by shimgen from runtime; DO NOT EDIT.

package runtime

import p "runtime"

// generic: AddCleanup
var BlockProfile = p.BlockProfile

type BlockProfileRecord = p.BlockProfileRecord

var Breakpoint = p.Breakpoint
var CPUProfile = p.CPUProfile
var Caller = p.Caller
var Callers = p.Callers
var CallersFrames = p.CallersFrames

type Cleanup = p.Cleanup

const Compiler = p.Compiler

type Error = p.Error
type Frame = p.Frame
type Frames = p.Frames
type Func = p.Func

var FuncForPC = p.FuncForPC
var GC = p.GC

const GOARCH = p.GOARCH

var GOMAXPROCS = p.GOMAXPROCS

const GOOS = p.GOOS

var GOROOT = p.GOROOT
var GoroutineProfile = p.GoroutineProfile
var KeepAlive = p.KeepAlive
var LockOSThread = p.LockOSThread
var MemProfile = p.MemProfile
var MemProfileRate = p.MemProfileRate

type MemProfileRecord = p.MemProfileRecord
type MemStats = p.MemStats

var MutexProfile = p.MutexProfile
var NumCPU = p.NumCPU
var NumCgoCall = p.NumCgoCall

type PanicNilError = p.PanicNilError
type Pinner = p.Pinner

var ReadMemStats = p.ReadMemStats
var ReadTrace = p.ReadTrace
var SetBlockProfileRate = p.SetBlockProfileRate
var SetCPUProfileRate = p.SetCPUProfileRate
var SetCgoTraceback = p.SetCgoTraceback
var SetDefaultGOMAXPROCS = p.SetDefaultGOMAXPROCS
var SetFinalizer = p.SetFinalizer
var SetMutexProfileFraction = p.SetMutexProfileFraction
var Stack = p.Stack

type StackRecord = p.StackRecord

var StartTrace = p.StartTrace
var StopTrace = p.StopTrace
var ThreadCreateProfile = p.ThreadCreateProfile

type TypeAssertionError = p.TypeAssertionError

var UnlockOSThread = p.UnlockOSThread
var Version = p.Version
