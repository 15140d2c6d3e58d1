//go:build oshook

package main

import (
	"os"
	"strings"
	"sync"
	"sync/atomic"
)

// The os package of this build calls os.VerifHook before file operations.

var (
	hookFn    atomic.Pointer[func(op, path, path2 string) error]
	hookHeavy sync.Mutex
	hookInit  sync.Once
	hookDir   string
)

// useHook installs the dispatcher; only paths below dir are reported.
func useHook(dir string) {
	hookInit.Do(func() {
		hookDir = dir
		os.VerifHook = func(op, path, path2 string) error {
			progress.Add(1)
			f := hookFn.Load()
			if f == nil || strings.HasPrefix(path, hookDir+"/result.json") || !(strings.HasPrefix(path, hookDir) || strings.HasPrefix(path2, hookDir)) {
				return nil
			}
			return (*f)(op, path, path2)
		}
	})
}

// setHook sets (or, nil, removes) the hook; fn may be called concurrently and must
// not use files.
func setHook(fn func(op, path, path2 string) error) {
	if fn == nil {
		hookFn.Store(nil)
		return
	}
	hookFn.Store(&fn)
}

// setMonitor sets a hook that may itself use files (its own operations, and those of
// other goroutines meanwhile, are not reported).
func setMonitor(fn func(op, path, path2 string) error) {
	setHook(func(op, path, path2 string) error {
		if !hookHeavy.TryLock() {
			return nil
		}
		defer hookHeavy.Unlock()
		return fn(op, path, path2)
	})
}

// unmonitored runs f without reporting its file operations to the monitor.
func unmonitored(f func()) {
	hookHeavy.Lock()
	defer hookHeavy.Unlock()
	f()
}

func setShortWrite(on bool) { os.VerifShortWrite = on }

var errInjected = syscallErr("injected failure")

type syscallErr string

func (e syscallErr) Error() string { return string(e) }
