// Code generated by cmd/aliases; DO NOT EDIT.

package vos

import nat "os"

type (
	DirEntry = nat.DirEntry
	File = nat.File
	FileInfo = nat.FileInfo
	FileMode = nat.FileMode
	LinkError = nat.LinkError
	PathError = nat.PathError
	ProcAttr = nat.ProcAttr
	Process = nat.Process
	ProcessState = nat.ProcessState
	Root = nat.Root
	Signal = nat.Signal
	SyscallError = nat.SyscallError
)

const (
	DevNull = nat.DevNull
	ModeAppend = nat.ModeAppend
	ModeCharDevice = nat.ModeCharDevice
	ModeDevice = nat.ModeDevice
	ModeDir = nat.ModeDir
	ModeExclusive = nat.ModeExclusive
	ModeIrregular = nat.ModeIrregular
	ModeNamedPipe = nat.ModeNamedPipe
	ModePerm = nat.ModePerm
	ModeSetgid = nat.ModeSetgid
	ModeSetuid = nat.ModeSetuid
	ModeSocket = nat.ModeSocket
	ModeSticky = nat.ModeSticky
	ModeSymlink = nat.ModeSymlink
	ModeTemporary = nat.ModeTemporary
	ModeType = nat.ModeType
	O_APPEND = nat.O_APPEND
	O_CREATE = nat.O_CREATE
	O_EXCL = nat.O_EXCL
	O_RDONLY = nat.O_RDONLY
	O_RDWR = nat.O_RDWR
	O_SYNC = nat.O_SYNC
	O_TRUNC = nat.O_TRUNC
	O_WRONLY = nat.O_WRONLY
	PathListSeparator = nat.PathListSeparator
	PathSeparator = nat.PathSeparator
	SEEK_CUR = nat.SEEK_CUR
	SEEK_END = nat.SEEK_END
	SEEK_SET = nat.SEEK_SET
)

var (
	Args = nat.Args
	Chdir = nat.Chdir
	Chmod = nat.Chmod
	Chown = nat.Chown
	Chtimes = nat.Chtimes
	Clearenv = nat.Clearenv
	CopyFS = nat.CopyFS
	CreateTemp = nat.CreateTemp
	DirFS = nat.DirFS
	Environ = nat.Environ
	ErrClosed = nat.ErrClosed
	ErrDeadlineExceeded = nat.ErrDeadlineExceeded
	ErrExist = nat.ErrExist
	ErrInvalid = nat.ErrInvalid
	ErrNoDeadline = nat.ErrNoDeadline
	ErrNoHandle = nat.ErrNoHandle
	ErrNotExist = nat.ErrNotExist
	ErrPermission = nat.ErrPermission
	ErrProcessDone = nat.ErrProcessDone
	Executable = nat.Executable
	Expand = nat.Expand
	FindProcess = nat.FindProcess
	Getegid = nat.Getegid
	Geteuid = nat.Geteuid
	Getgid = nat.Getgid
	Getgroups = nat.Getgroups
	Getpagesize = nat.Getpagesize
	Getpid = nat.Getpid
	Getppid = nat.Getppid
	Getuid = nat.Getuid
	Getwd = nat.Getwd
	Hostname = nat.Hostname
	Interrupt = nat.Interrupt
	IsExist = nat.IsExist
	IsNotExist = nat.IsNotExist
	IsPathSeparator = nat.IsPathSeparator
	IsPermission = nat.IsPermission
	IsTimeout = nat.IsTimeout
	Kill = nat.Kill
	Lchown = nat.Lchown
	Link = nat.Link
	Mkdir = nat.Mkdir
	MkdirAll = nat.MkdirAll
	MkdirTemp = nat.MkdirTemp
	NewFile = nat.NewFile
	NewSyscallError = nat.NewSyscallError
	OpenInRoot = nat.OpenInRoot
	OpenRoot = nat.OpenRoot
	Pipe = nat.Pipe
	ReadDir = nat.ReadDir
	Readlink = nat.Readlink
	RemoveAll = nat.RemoveAll
	Setenv = nat.Setenv
	StartProcess = nat.StartProcess
	Stderr = nat.Stderr
	Stdin = nat.Stdin
	Stdout = nat.Stdout
	Symlink = nat.Symlink
	TempDir = nat.TempDir
	Truncate = nat.Truncate
	Unsetenv = nat.Unsetenv
	UserCacheDir = nat.UserCacheDir
	UserConfigDir = nat.UserConfigDir
	UserHomeDir = nat.UserHomeDir
)

