// Package sites holds call sites of logging methods.
package sites

import (
	"runtime"

	"github.com/xtfly/log4g/api"
)

// Site is a place in the code.
type Site struct {
	File string
	Line int
	Func string // as the runtime names it
}

// Frames returns the caller of Frames and its callers.
func Frames() []Site { return FramesAt(1) }

// FramesAt skips more callers.
func FramesAt(skip int) (ss []Site) {
	pcs := make([]uintptr, 400)
	n := runtime.Callers(2+skip, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		ss = append(ss, Site{f.File, f.Line, f.Function})
		if !more {
			return
		}
	}
}

type ValueT struct{ n int }
type PtrT struct{ n int }
type embT struct{ api.Writer }
type genT[T any] struct{ t T }

// Via calls f through n more functions.
func Via(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	if n%2 == 0 {
		func() { Via(n-1, f) }()
		return
	}
	viaOdd{}.via(n, f)
}

type viaOdd struct{}

func (viaOdd) via(n int, f func()) {
	Via(n-1, f)
}
