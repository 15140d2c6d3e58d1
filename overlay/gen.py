#!/usr/bin/env python3
"""Generates the build overlay: gen.py KIND OUTDIR REPO (KIND: base, os, arch).

Nothing in /repo is edited. The overlay
 * adds an error/crash hook to the entry points of package os (so that faults and
   crash points can be placed below the library under test),
 * points log/syslog at a stand-in socket named by VERIF_SYSLOG,
 * adds a package github.com/xtfly/log4g/verifx re-exporting the internal archive
   packages (they cannot be imported from another module).
"""
import json, os, re, subprocess, sys
kind, out, repo = sys.argv[1:4]
os.makedirs(out, exist_ok=True)
here = os.path.dirname(os.path.abspath(__file__))
goroot = subprocess.check_output(['go', 'env', 'GOROOT'], text=True).strip()
rep = {}

def patch(rel, subs):
    if kind != 'os':
        return

    src = os.path.join(goroot, 'src', rel)
    s = open(src).read()
    for sig, ins in subs:
        n = s.count(sig)
        if n != 1:
            sys.exit('overlay: %r found %d times in %s' % (sig, n, src))
        s = s.replace(sig, sig + ins)
    dst = os.path.join(out, rel.replace('/', '_'))
    with open(dst, 'w') as f:
        f.write(s)
    rep[src] = dst

def hook(op, path, path2='""', ret='%s'):
    return '\n\tif h := VerifHook; h != nil {\n\t\tif e := h("%s", %s, %s); e != nil {\n\t\t\t%s\n\t\t}\n\t}' % (op, path, path2, ret)

pe = lambda op, p: 'return &PathError{Op: "%s", Path: %s, Err: e}' % (op, p)
patch('os/file_unix.go', [
    ('func rename(oldname, newname string) error {', hook('rename', 'oldname', 'newname', 'return &LinkError{"rename", oldname, newname, e}')),
    ('func openFileNolog(name string, flag int, perm FileMode) (*File, error) {', hook('open', 'name', 'verifFlag(flag)', 'return nil, &PathError{Op: "open", Path: name, Err: e}')),
    ('func Remove(name string) error {', hook('remove', 'name', '""', pe('remove', 'name'))),
])
patch('os/file_posix.go', [
    ('func (f *File) Close() error {', '\n\tif h := VerifHook; h != nil && f != nil {\n\t\tif e := h("close", f.Name(), ""); e != nil {\n\t\t\tf.file.close()\n\t\t\treturn &PathError{Op: "close", Path: f.Name(), Err: e}\n\t\t}\n\t}'),
    ('func chmod(name string, mode FileMode) error {', hook('chmod', 'name', '""', pe('chmod', 'name'))),
])
patch('os/file.go', [
    ('func (f *File) Read(b []byte) (n int, err error) {', '\n\tif h := VerifHook; h != nil && f != nil {\n\t\tif e := h("read", f.Name(), ""); e != nil {\n\t\t\treturn 0, &PathError{Op: "read", Path: f.Name(), Err: e}\n\t\t}\n\t}'),
    ('func (f *File) Write(b []byte) (n int, err error) {', '\n\tif h := VerifHook; h != nil && f != nil {\n\t\tif e := h("write", f.Name(), ""); e != nil {\n\t\t\tif VerifShortWrite && len(b) > 1 {\n\t\t\t\tn, _ = f.write(b[:len(b)/2])\n\t\t\t}\n\t\t\treturn n, &PathError{Op: "write", Path: f.Name(), Err: e}\n\t\t}\n\t}'),
    ('func Mkdir(name string, perm FileMode) error {', hook('mkdir', 'name', '""', pe('mkdir', 'name'))),
])
patch('os/dir_unix.go', [
    ('func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {', '\n\tif h := VerifHook; h != nil && f != nil {\n\t\tif e := h("readdir", f.Name(), ""); e != nil {\n\t\t\treturn nil, nil, nil, &PathError{Op: "readdirent", Path: f.Name(), Err: e}\n\t\t}\n\t}'),
])
z = os.path.join(out, 'os_zz_verif.go')
if kind == 'os':
  open(z, 'w').write('''package os

// VerifHook, when set (once, before use), is called before each file operation; a
// non-nil error makes the operation fail with it.
var VerifHook func(op, path, path2 string) error

// VerifShortWrite makes a failing write store half of its bytes.
var VerifShortWrite bool

func verifFlag(flag int) string {
	if flag&(O_WRONLY|O_RDWR|O_CREATE) != 0 {
		return "w"
	}
	return "r"
}
''')
  rep[os.path.join(goroot, 'src/os/zz_verif.go')] = z
rep[os.path.join(goroot, 'src/log/syslog/syslog_unix.go')] = os.path.join(here, 'syslog_unix.go.txt')
if kind == 'arch':
    rep[os.path.join(repo, 'verifx/verifx.go')] = os.path.join(here, 'verifx.go.txt')
json.dump({'Replace': rep}, open(os.path.join(out, 'overlay.json'), 'w'), indent=1)
