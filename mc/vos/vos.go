// Package vos is package os with file access made visible to the explorer.
package vos

import (
	"fmt"
	"io/fs"
	"os"
	"time"

	"verif.local/mc/vs"
	"verif.local/mc/vtime"
)

type fsKey struct{}

// fsys is the state of the file system: its object and the time of its last change.
type fsys struct {
	vs.Obj
	changed time.Duration
}

func obj() *fsys {
	if o, ok := vs.X.Local[fsKey{}]; ok {
		return o.(*fsys)
	}
	o := &fsys{}
	vs.X.Local[fsKey{}] = o
	return o
}

// info is a FileInfo whose modification time is that of the virtual clock. Like that of a real file system it does not
// tell changes apart that follow each other closely.
type info struct {
	fs.FileInfo
	t time.Time
}

func (i info) ModTime() time.Time { return i.t }

func stamped(i fs.FileInfo, err error) (fs.FileInfo, error) {
	if err != nil || vs.X == nil {
		return i, err
	}
	return info{i, vtime.Base.Add(obj().changed)}, nil
}

// SameFile is os.SameFile.
func SameFile(a, b fs.FileInfo) bool {
	if i, ok := a.(info); ok {
		a = i.FileInfo
	}
	if i, ok := b.(info); ok {
		b = i.FileInfo
	}
	return os.SameFile(a, b)
}

// Env, if set, answers for the environment variables that are not set.
var Env func(name string) (string, bool)

// LookupEnv is os.LookupEnv.
func LookupEnv(n string) (string, bool) {
	if v, ok := os.LookupEnv(n); ok || Env == nil {
		return v, ok
	}
	return Env(n)
}

// Getenv is os.Getenv.
func Getenv(n string) string {
	v, _ := LookupEnv(n)
	return v
}

// ExpandEnv is os.ExpandEnv.
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

type op struct {
	what  string
	write bool
	f     func()
}

func (o *op) Ready(*vs.Thread) bool { return true }
func (o *op) String() string        { return o.what }
func (o *op) Exec(*vs.Thread) {
	if o.write {
		o := obj()
		o.Update(602)
		o.changed = time.Duration(vs.X.Clock())
	} else {
		obj().Acquire(601)
	}
	o.f()
}

// Step performs f, an access to the file system, as one step.
func Step(what string, write bool, f func()) {
	if vs.X == nil || vs.Aborting() {
		f()
		return
	}
	vs.Do(&op{what, write, f})
}

// ReadFile is os.ReadFile.
func ReadFile(n string) (b []byte, err error) {
	Step("read file", false, func() { b, err = os.ReadFile(n) })
	return
}

// Open is os.Open.
func Open(n string) (f *os.File, err error) {
	Step("open file", false, func() { f, err = os.Open(n) })
	return
}

// OpenFile is os.OpenFile.
func OpenFile(n string, flag int, perm fs.FileMode) (f *os.File, err error) {
	Step("open file", flag != os.O_RDONLY, func() { f, err = os.OpenFile(n, flag, perm) })
	return
}

// Create is os.Create.
func Create(n string) (f *os.File, err error) {
	Step("create file", true, func() { f, err = os.Create(n) })
	return
}

// WriteFile is os.WriteFile.
func WriteFile(n string, b []byte, perm fs.FileMode) (err error) {
	Step("write file", true, func() { err = os.WriteFile(n, b, perm) })
	return
}

// Rename is os.Rename.
func Rename(a, b string) (err error) {
	Step("rename file", true, func() { err = os.Rename(a, b) })
	return
}

// Remove is os.Remove.
func Remove(a string) (err error) {
	Step("remove file", true, func() { err = os.Remove(a) })
	return
}

// Stat is os.Stat.
func Stat(n string) (i fs.FileInfo, err error) {
	Step("stat", false, func() { i, err = stamped(os.Stat(n)) })
	return
}

// Lstat is os.Lstat.
func Lstat(n string) (i fs.FileInfo, err error) {
	Step("lstat", false, func() { i, err = stamped(os.Lstat(n)) })
	return
}

// ExitPanic is what a call of Exit becomes in an execution.
type ExitPanic int

func (e ExitPanic) Error() string { return fmt.Sprintf("os.Exit(%d)", int(e)) }

// Exit is os.Exit.
func Exit(c int) {
	if vs.X == nil {
		os.Exit(c)
	}
	panic(ExitPanic(c))
}
