"""Writes the overlay of the standard library that the workers are built with.

log/syslog: the path of the system log's socket comes from VERIF_SYSLOG.
os (faults only): a hook is consulted before each file-system operation.
Everything is generated from the sources of the installed toolchain.
"""
import json
import os
import sys


class Pattern(Exception):
    pass


def sub(src, old, new):
    if src.count(old) != 1:
        raise Pattern("expected once: %r, found %d times" % (old, src.count(old)))
    return src.replace(old, new)


def at(src, head, code):
    """Inserts code at the start of the function with this head."""
    return sub(src, "\n" + head + "\n", "\n" + head + "\n" + code + "\n")


HOOK = '''package os

import "syscall"

// VerifHook is consulted before each file-system operation; it returns the
// error number to fail with, or 0, and whether a write is to be cut short.
var VerifHook func(kind, path string) (errno int, short bool)

func verifHook(kind, path string) error {
	if h := VerifHook; h != nil {
		if e, _ := h(kind, path); e != 0 {
			return syscall.Errno(e)
		}
	}
	return nil
}
'''


def perr(op, name, ret):
    return '\tif e := verifHook("%s", %s); e != nil {\n\t\treturn %s&PathError{Op: "%s", Path: %s, Err: e}\n\t}' % (op, name, ret, op, name)


def faults(goroot, out):
    d = os.path.join(goroot, "src", "os")
    files = {}

    def rd(n):
        if n not in files:
            files[n] = open(os.path.join(d, n)).read()
        return files[n]

    n = "file_unix.go"
    s = rd(n)
    s = at(s, "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {",
           '\tkind := "open"\n\tif flag&O_CREATE != 0 {\n\t\tkind = "create"\n\t}\n'
           '\tif e := verifHook(kind, name); e != nil {\n\t\treturn nil, &PathError{Op: "open", Path: name, Err: e}\n\t}')
    s = at(s, "func rename(oldname, newname string) error {",
           '\tif e := verifHook("rename", oldname); e != nil {\n\t\treturn &LinkError{"rename", oldname, newname, e}\n\t}')
    s = at(s, "func Remove(name string) error {", perr("remove", "name", ""))
    s = at(s, "func Truncate(name string, size int64) error {", perr("truncate", "name", ""))
    s = at(s, "func Link(oldname, newname string) error {",
           '\tif e := verifHook("link", oldname); e != nil {\n\t\treturn &LinkError{"link", oldname, newname, e}\n\t}')
    files[n] = s

    n = "file.go"
    s = rd(n)
    s = at(s, "func Mkdir(name string, perm FileMode) error {", perr("mkdir", "name", ""))
    s = at(s, "func (f *File) Write(b []byte) (n int, err error) {",
           '\tif h := VerifHook; h != nil && f != nil {\n\t\tif e, short := h("write", f.name); e != 0 {\n'
           '\t\t\tif short && len(b) > 1 {\n\t\t\t\tn, _ = f.write(b[:len(b)/2])\n\t\t\t}\n'
           '\t\t\treturn n, &PathError{Op: "write", Path: f.name, Err: syscall.Errno(e)}\n\t\t}\n\t}')
    s = at(s, "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {",
           '\tif VerifHook != nil && f != nil {\n\t\treturn genericReadFrom(f, r)\n\t}')
    files[n] = s

    n = "file_posix.go"
    s = rd(n)
    s = at(s, "func (f *File) Close() error {",
           '\tif f != nil && f.file != nil {\n\t\tif e := verifHook("close", f.name); e != nil {\n'
           '\t\t\tf.file.close()\n\t\t\treturn &PathError{Op: "close", Path: f.name, Err: e}\n\t\t}\n\t}')
    s = at(s, "func chmod(name string, mode FileMode) error {", perr("chmod", "name", ""))
    s = at(s, "func (f *File) chmod(mode FileMode) error {", perr("chmod", "f.name", ""))
    s = at(s, "func (f *File) Truncate(size int64) error {", perr("truncate", "f.name", ""))
    files[n] = s

    n = "stat.go"
    s = rd(n)
    s = at(s, "func Stat(name string) (FileInfo, error) {", perr("stat", "name", "nil, "))
    s = at(s, "func Lstat(name string) (FileInfo, error) {", perr("stat", "name", "nil, "))
    files[n] = s

    n = "stat_unix.go"
    s = rd(n)
    s = sub(s, "func (f *File) Stat() (FileInfo, error) {\n\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n",
            "func (f *File) Stat() (FileInfo, error) {\n\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n" + perr("stat", "f.name", "nil, ") + "\n")
    files[n] = s

    n = "dir_unix.go"
    s = rd(n)
    s = at(s, "func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {",
           perr("readdir", "f.name", "nil, nil, nil, "))
    files[n] = s

    rep = {}
    for n, s in files.items():
        p = os.path.join(out, "os_" + n)
        open(p, "w").write(s)
        rep[os.path.join(d, n)] = p
    p = os.path.join(out, "os_verif_hook.go")
    open(p, "w").write(HOOK)
    rep[os.path.join(d, "zz_verif_hook.go")] = p
    return rep


def syslog(goroot, out):
    src = os.path.join(goroot, "src", "log", "syslog", "syslog_unix.go")
    s = open(src).read()
    s = sub(s, 'import (\n\t"errors"\n\t"net"\n)', 'import (\n\t"errors"\n\t"net"\n\t"os"\n)')
    s = sub(s, '[]string{"/dev/log", "/var/run/syslog", "/var/run/log"}', '[]string{os.Getenv("VERIF_SYSLOG")}')
    p = os.path.join(out, "syslog_unix.go")
    open(p, "w").write(s)
    return {src: p}


def write(goroot, out, with_faults):
    os.makedirs(out, exist_ok=True)
    rep = syslog(goroot, out)
    if with_faults:
        rep.update(faults(goroot, out))
    p = os.path.join(out, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p


if __name__ == "__main__":
    print(write(sys.argv[1], sys.argv[2], len(sys.argv) > 3))
