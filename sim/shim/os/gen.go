// Code generated by shimgen from os; DO NOT EDIT.

package os

import p "os"

var Args = p.Args
var Chdir = p.Chdir

const DevNull = p.DevNull

type DirEntry = p.DirEntry

var ErrClosed = p.ErrClosed
var ErrDeadlineExceeded = p.ErrDeadlineExceeded
var ErrExist = p.ErrExist
var ErrInvalid = p.ErrInvalid
var ErrNoDeadline = p.ErrNoDeadline
var ErrNoHandle = p.ErrNoHandle
var ErrNotExist = p.ErrNotExist
var ErrPermission = p.ErrPermission
var ErrProcessDone = p.ErrProcessDone
var Executable = p.Executable
var Exit = p.Exit
var Expand = p.Expand

type FileInfo = p.FileInfo
type FileMode = p.FileMode

var Getegid = p.Getegid
var Geteuid = p.Geteuid
var Getgid = p.Getgid
var Getgroups = p.Getgroups
var Getpagesize = p.Getpagesize
var Getpid = p.Getpid
var Getppid = p.Getppid
var Getuid = p.Getuid
var Getwd = p.Getwd
var Hostname = p.Hostname
var Interrupt = p.Interrupt
var IsExist = p.IsExist
var IsNotExist = p.IsNotExist
var IsPathSeparator = p.IsPathSeparator
var IsPermission = p.IsPermission
var IsTimeout = p.IsTimeout
var Kill = p.Kill
var Lchown = p.Lchown

type LinkError = p.LinkError

const ModeAppend = p.ModeAppend
const ModeCharDevice = p.ModeCharDevice
const ModeDevice = p.ModeDevice
const ModeDir = p.ModeDir
const ModeExclusive = p.ModeExclusive
const ModeIrregular = p.ModeIrregular
const ModeNamedPipe = p.ModeNamedPipe
const ModePerm = p.ModePerm
const ModeSetgid = p.ModeSetgid
const ModeSetuid = p.ModeSetuid
const ModeSocket = p.ModeSocket
const ModeSticky = p.ModeSticky
const ModeSymlink = p.ModeSymlink
const ModeTemporary = p.ModeTemporary
const ModeType = p.ModeType

var NewSyscallError = p.NewSyscallError

const O_APPEND = p.O_APPEND
const O_CREATE = p.O_CREATE
const O_EXCL = p.O_EXCL
const O_RDONLY = p.O_RDONLY
const O_RDWR = p.O_RDWR
const O_SYNC = p.O_SYNC
const O_TRUNC = p.O_TRUNC
const O_WRONLY = p.O_WRONLY

type PathError = p.PathError

const PathListSeparator = p.PathListSeparator
const PathSeparator = p.PathSeparator
const SEEK_CUR = p.SEEK_CUR
const SEEK_END = p.SEEK_END
const SEEK_SET = p.SEEK_SET

type Signal = p.Signal
type SyscallError = p.SyscallError

var TempDir = p.TempDir
var UserCacheDir = p.UserCacheDir
var UserConfigDir = p.UserConfigDir
var UserHomeDir = p.UserHomeDir
