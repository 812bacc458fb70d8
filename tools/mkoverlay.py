#!/usr/bin/env python3
"""Generate the std-library overlay that gives the explorer its seams.

usage: mkoverlay.py GOROOT OUTDIR [extra.json]

Nothing of /repo is changed: the seams sit in copies of a few standard library
files which `go build -overlay` substitutes.  Every seam is inert (nil hook)
until the harness installs a hook.
"""
import json, os, sys

goroot, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
rep = {}


def patch(rel, edits):
    src = os.path.join(goroot, "src", rel)
    s = open(src).read()
    for old, new in edits:
        assert s.count(old) == 1, (rel, old, s.count(old))
        s = s.replace(old, new)
    dst = os.path.join(out, rel.replace("/", "__"))
    open(dst, "w").write(s)
    rep[src] = dst


def add(rel, text):
    dst = os.path.join(out, rel.replace("/", "__"))
    open(dst, "w").write(text)
    rep[os.path.join(goroot, "src", rel)] = dst


# -- every outgoing HTTP request (S3 SDK, Consul client, tile store reads)
patch("net/http/roundtrip.go", [(
    "\treturn t.roundTrip(req)\n",
    "\tif h := VerifRoundTrip; h != nil {\n\t\treturn h(t, req)\n\t}\n\treturn t.roundTrip(req)\n")])
patch("net/http/server.go", [(
    "func (sh serverHandler) ServeHTTP(rw ResponseWriter, req *Request) {\n",
    "func (sh serverHandler) ServeHTTP(rw ResponseWriter, req *Request) {\n\tif h := VerifServe; h != nil {\n\t\th(req)\n\t}\n")])
add("net/http/zz_verif.go", """package http

// VerifServe, when set, is called by the goroutine of each request a server gets.
var VerifServe func(req *Request)

// VerifRoundTrip, when set, answers every request of every Transport.
var VerifRoundTrip func(t *Transport, req *Request) (*Response, error)
""")

# -- process exit, file mutations
patch("os/proc.go", [(
    "func Exit(code int) {\n",
    "func Exit(code int) {\n\tif h := VerifExit; h != nil {\n\t\th(code)\n\t}\n")])
H = "\tif h := VerifFS; h != nil {\n\t\tif err := h(%s); err != nil {\n\t\t\treturn %serr\n\t\t}\n\t}\n"
patch("os/file.go", [
    ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n",
     "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n"
     + H % ('"open", name, flag', "nil, ")),
    ("func (f *File) Write(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n",
     "func (f *File) Write(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n"
     "\tif h := VerifFSWrite; h != nil {\n\t\tif k, e := h(f.name, len(b)); k >= 0 && k < len(b) {\n\t\t\tf.write(b[:k])\n\t\t\tif g := VerifFSTorn; g != nil {\n\t\t\t\tg(f.name)\n\t\t\t}\n\t\t\treturn k, e\n\t\t} else if e != nil {\n\t\t\treturn 0, e\n\t\t}\n\t}\n"),
    ("func (f *File) Read(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n",
     "func (f *File) Read(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n"
     + H % ('"read", f.name, 0', "0, ")),
    ("func Rename(oldpath, newpath string) error {\n",
     "func Rename(oldpath, newpath string) error {\n" + H % ('"rename", newpath, 0', "")),
    ("func Mkdir(name string, perm FileMode) error {\n",
     "func Mkdir(name string, perm FileMode) error {\n" + H % ('"mkdir", name, 0', "")),
])
patch("os/file_unix.go", [
    ("func Remove(name string) error {\n",
     "func Remove(name string) error {\n" + H % ('"remove", name, 0', "")),
    ("func Link(oldname, newname string) error {\n",
     "func Link(oldname, newname string) error {\n" + H % ('"link", newname, 0', "")),
    ("func Symlink(oldname, newname string) error {\n",
     "func Symlink(oldname, newname string) error {\n" + H % ('"symlink", newname, 0', "")),
    ("func Truncate(name string, size int64) error {\n",
     "func Truncate(name string, size int64) error {\n" + H % ('"truncate", name, 0', "")),
])
patch("os/stat.go", [
    ("func Stat(name string) (FileInfo, error) {\n",
     "func Stat(name string) (FileInfo, error) {\n" + H % ('"stat", name, 0', "nil, ")),
])
patch("os/file_posix.go", [(
    "\treturn f.file.close()\n",
    "\tif h := VerifFSClose; h != nil {\n\t\tif err := h(f.name); err != nil {\n\t\t\tf.file.close()\n\t\t\treturn err\n\t\t}\n\t}\n\treturn f.file.close()\n")])
add("os/zz_verif.go", """package os

// VerifExit, when set, is called before a process exit.
var VerifExit func(code int)

// VerifFS, when set, is called before each path operation (open with its
// flags, rename/link/symlink with the new name, mkdir, remove, truncate, stat) and
// before each File.Read.  An
// error it returns becomes the result and the operation is not performed.
var VerifFS func(op, path string, flag int) error

// VerifFSWrite, when set, is called before each File.Write; k in [0,len)
// makes the write torn after k bytes, then VerifFSTorn is called.
var VerifFSWrite func(path string, n int) (k int, err error)
var VerifFSTorn func(path string)

// VerifFSClose, when set, is called before each File.Close; an error it
// returns becomes the result (the file is closed all the same).
var VerifFSClose func(path string) error
""")

# -- signals, goroutine labels, running a bubble outside a test
patch("os/signal/signal.go", [(
    "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n",
    "// VerifNotify, when set, replaces Notify.\nvar VerifNotify func(c chan<- os.Signal, sig ...os.Signal)\n\n"
    "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n\tif h := VerifNotify; h != nil {\n\t\th(c, sig...)\n\t\treturn\n\t}\n")])
add("runtime/pprof/zz_verif.go", """package pprof

// VerifLabel returns the value of a goroutine label (inherited by children).
func VerifLabel(key string) string {
	m := (*labelMap)(runtime_getProfLabel())
	if m == nil {
		return ""
	}
	for _, l := range m.list {
		if l.key == key {
			return l.value
		}
	}
	return ""
}
""")
add("testing/synctest/zz_verif.go", """package synctest

import "internal/synctest"

// VerifRun runs f in a new bubble.  Goroutines that are still blocked when f
// returns are abandoned; leaked reports that there were some.
func VerifRun(f func()) (leaked bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && len(e.Error()) > 9 && e.Error()[:9] == "deadlock:" {
				leaked = true
				return
			}
			panic(r)
		}
	}()
	synctest.Run(f)
	return false
}
""")
# -- a goroutine that waits for a mutex, or on a channel or wait group made
# outside the bubble, is waiting: nothing outside the bubble ever acts on it here
patch("runtime/runtime2.go", [(
    "\twaitReasonChanReceiveNilChan:    true,\n",
    "\twaitReasonChanReceiveNilChan:    true,\n"
    + "".join("\twaitReason%s: true,\n" % r for r in
              ("SyncMutexLock", "SyncRWMutexRLock", "SyncRWMutexLock", "SyncWaitGroupWait", "ChanReceive", "ChanSend", "Select")))])
# -- statement-level scheduling points (only used by instrumented builds)
add("verifpoint/verifpoint.go", """// Package verifpoint is called by instrumented copies of the code under test.
package verifpoint

import "unsafe"

// Hook, when set, is called before every statement of instrumented code, and
// after some.  The n places that the statement touches are given by acc, the bits
// of writes are those it writes to.
var Hook func(site, n int, writes uint64, acc func(i int) (uintptr, uintptr))

func P(site int) {
	if h := Hook; h != nil {
		h(site, 0, 0, nil)
	}
}

func A(site, n int, writes uint64, acc func(i int) (uintptr, uintptr)) {
	if h := Hook; h != nil {
		h(site, n, writes, acc)
	}
}

// Addr is the memory of a variable.
func Addr[T any](p *T) (lo, hi uintptr) {
	lo = uintptr(unsafe.Pointer(p))
	return lo, lo + unsafe.Sizeof(*p)
}

// Map is the memory of a map.
func Map[M ~map[K]V, K comparable, V any](m M) (lo, hi uintptr) {
	lo = *(*uintptr)(unsafe.Pointer(&m))
	if lo == 0 {
		return 0, 0
	}
	return lo, lo + 1
}
""")
if len(sys.argv) > 3:
    rep.update(json.load(open(sys.argv[3]))["Replace"])
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
