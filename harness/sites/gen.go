// Code generated by tools/mksites.py. DO NOT EDIT.

package sites

import (
	"github.com/xtfly/log4g/api"
)

func FunctionTrace(wr api.Writer, msg string, rep func([]Site)) { wr.Trace(msg); rep(Frames()) }

func (t ValueT) MTrace(wr api.Writer, msg string, rep func([]Site)) { wr.Trace(msg); rep(Frames()) }
func ValueTrace(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MTrace(wr, msg, rep) }

func (t *PtrT) MTrace(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Trace(msg); rep(Frames())
}
func PtrTrace(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MTrace(wr, msg, rep) }

func ClosureTrace(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Trace(msg); rep(Frames()) }
	f()
}

func NestedTrace(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Trace(msg); rep(Frames())
		}()
	}()
}

func GoTrace(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Trace(msg); rep(Frames())
	}()
	<-done
}

func DeferredTrace(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Trace(msg); rep(Frames())
	}()
	msg += ""
}

func RecoverTrace(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Trace(msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueTrace(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Trace
	f(msg); rep(Frames())
}

func MethodExprTrace(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Trace(wr, msg); rep(Frames())
}

func EmbeddedTrace(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Trace(msg); rep(Frames())
}

func genericTrace[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Trace(msg); rep(Frames()) }
func GenericTrace(wr api.Writer, msg string, rep func([]Site)) {
	genericTrace(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mTrace(wr api.Writer, msg string, rep func([]Site)) { wr.Trace(msg); rep(Frames()) }
func GenericMTrace(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mTrace(wr, msg, rep)
}

func LoopTrace(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Trace(msg); rep(Frames())
		}
	}
}

var FuncVarTrace = func(wr api.Writer, msg string, rep func([]Site)) { wr.Trace(msg); rep(Frames()) }

func FunctionDebug(wr api.Writer, msg string, rep func([]Site)) { wr.Debug(msg); rep(Frames()) }

func (t ValueT) MDebug(wr api.Writer, msg string, rep func([]Site)) { wr.Debug(msg); rep(Frames()) }
func ValueDebug(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MDebug(wr, msg, rep) }

func (t *PtrT) MDebug(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Debug(msg); rep(Frames())
}
func PtrDebug(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MDebug(wr, msg, rep) }

func ClosureDebug(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Debug(msg); rep(Frames()) }
	f()
}

func NestedDebug(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Debug(msg); rep(Frames())
		}()
	}()
}

func GoDebug(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Debug(msg); rep(Frames())
	}()
	<-done
}

func DeferredDebug(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Debug(msg); rep(Frames())
	}()
	msg += ""
}

func RecoverDebug(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Debug(msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueDebug(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Debug
	f(msg); rep(Frames())
}

func MethodExprDebug(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Debug(wr, msg); rep(Frames())
}

func EmbeddedDebug(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Debug(msg); rep(Frames())
}

func genericDebug[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Debug(msg); rep(Frames()) }
func GenericDebug(wr api.Writer, msg string, rep func([]Site)) {
	genericDebug(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mDebug(wr api.Writer, msg string, rep func([]Site)) { wr.Debug(msg); rep(Frames()) }
func GenericMDebug(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mDebug(wr, msg, rep)
}

func LoopDebug(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Debug(msg); rep(Frames())
		}
	}
}

var FuncVarDebug = func(wr api.Writer, msg string, rep func([]Site)) { wr.Debug(msg); rep(Frames()) }

func FunctionInfo(wr api.Writer, msg string, rep func([]Site)) { wr.Info(msg); rep(Frames()) }

func (t ValueT) MInfo(wr api.Writer, msg string, rep func([]Site)) { wr.Info(msg); rep(Frames()) }
func ValueInfo(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MInfo(wr, msg, rep) }

func (t *PtrT) MInfo(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Info(msg); rep(Frames())
}
func PtrInfo(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MInfo(wr, msg, rep) }

func ClosureInfo(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Info(msg); rep(Frames()) }
	f()
}

func NestedInfo(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Info(msg); rep(Frames())
		}()
	}()
}

func GoInfo(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Info(msg); rep(Frames())
	}()
	<-done
}

func DeferredInfo(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Info(msg); rep(Frames())
	}()
	msg += ""
}

func RecoverInfo(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Info(msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueInfo(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Info
	f(msg); rep(Frames())
}

func MethodExprInfo(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Info(wr, msg); rep(Frames())
}

func EmbeddedInfo(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Info(msg); rep(Frames())
}

func genericInfo[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Info(msg); rep(Frames()) }
func GenericInfo(wr api.Writer, msg string, rep func([]Site)) {
	genericInfo(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mInfo(wr api.Writer, msg string, rep func([]Site)) { wr.Info(msg); rep(Frames()) }
func GenericMInfo(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mInfo(wr, msg, rep)
}

func LoopInfo(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Info(msg); rep(Frames())
		}
	}
}

var FuncVarInfo = func(wr api.Writer, msg string, rep func([]Site)) { wr.Info(msg); rep(Frames()) }

func FunctionWarn(wr api.Writer, msg string, rep func([]Site)) { wr.Warn(msg); rep(Frames()) }

func (t ValueT) MWarn(wr api.Writer, msg string, rep func([]Site)) { wr.Warn(msg); rep(Frames()) }
func ValueWarn(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MWarn(wr, msg, rep) }

func (t *PtrT) MWarn(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Warn(msg); rep(Frames())
}
func PtrWarn(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MWarn(wr, msg, rep) }

func ClosureWarn(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Warn(msg); rep(Frames()) }
	f()
}

func NestedWarn(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Warn(msg); rep(Frames())
		}()
	}()
}

func GoWarn(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Warn(msg); rep(Frames())
	}()
	<-done
}

func DeferredWarn(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Warn(msg); rep(Frames())
	}()
	msg += ""
}

func RecoverWarn(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Warn(msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueWarn(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Warn
	f(msg); rep(Frames())
}

func MethodExprWarn(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Warn(wr, msg); rep(Frames())
}

func EmbeddedWarn(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Warn(msg); rep(Frames())
}

func genericWarn[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Warn(msg); rep(Frames()) }
func GenericWarn(wr api.Writer, msg string, rep func([]Site)) {
	genericWarn(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mWarn(wr api.Writer, msg string, rep func([]Site)) { wr.Warn(msg); rep(Frames()) }
func GenericMWarn(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mWarn(wr, msg, rep)
}

func LoopWarn(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Warn(msg); rep(Frames())
		}
	}
}

var FuncVarWarn = func(wr api.Writer, msg string, rep func([]Site)) { wr.Warn(msg); rep(Frames()) }

func FunctionError(wr api.Writer, msg string, rep func([]Site)) { wr.Error(msg); rep(Frames()) }

func (t ValueT) MError(wr api.Writer, msg string, rep func([]Site)) { wr.Error(msg); rep(Frames()) }
func ValueError(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MError(wr, msg, rep) }

func (t *PtrT) MError(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Error(msg); rep(Frames())
}
func PtrError(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MError(wr, msg, rep) }

func ClosureError(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Error(msg); rep(Frames()) }
	f()
}

func NestedError(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Error(msg); rep(Frames())
		}()
	}()
}

func GoError(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Error(msg); rep(Frames())
	}()
	<-done
}

func DeferredError(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Error(msg); rep(Frames())
	}()
	msg += ""
}

func RecoverError(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Error(msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueError(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Error
	f(msg); rep(Frames())
}

func MethodExprError(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Error(wr, msg); rep(Frames())
}

func EmbeddedError(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Error(msg); rep(Frames())
}

func genericError[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Error(msg); rep(Frames()) }
func GenericError(wr api.Writer, msg string, rep func([]Site)) {
	genericError(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mError(wr api.Writer, msg string, rep func([]Site)) { wr.Error(msg); rep(Frames()) }
func GenericMError(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mError(wr, msg, rep)
}

func LoopError(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Error(msg); rep(Frames())
		}
	}
}

var FuncVarError = func(wr api.Writer, msg string, rep func([]Site)) { wr.Error(msg); rep(Frames()) }

func FunctionCritical(wr api.Writer, msg string, rep func([]Site)) { wr.Critical(msg); rep(Frames()) }

func (t ValueT) MCritical(wr api.Writer, msg string, rep func([]Site)) { wr.Critical(msg); rep(Frames()) }
func ValueCritical(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MCritical(wr, msg, rep) }

func (t *PtrT) MCritical(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Critical(msg); rep(Frames())
}
func PtrCritical(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MCritical(wr, msg, rep) }

func ClosureCritical(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Critical(msg); rep(Frames()) }
	f()
}

func NestedCritical(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Critical(msg); rep(Frames())
		}()
	}()
}

func GoCritical(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Critical(msg); rep(Frames())
	}()
	<-done
}

func DeferredCritical(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Critical(msg); rep(Frames())
	}()
	msg += ""
}

func RecoverCritical(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Critical(msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueCritical(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Critical
	f(msg); rep(Frames())
}

func MethodExprCritical(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Critical(wr, msg); rep(Frames())
}

func EmbeddedCritical(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Critical(msg); rep(Frames())
}

func genericCritical[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Critical(msg); rep(Frames()) }
func GenericCritical(wr api.Writer, msg string, rep func([]Site)) {
	genericCritical(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mCritical(wr api.Writer, msg string, rep func([]Site)) { wr.Critical(msg); rep(Frames()) }
func GenericMCritical(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mCritical(wr, msg, rep)
}

func LoopCritical(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Critical(msg); rep(Frames())
		}
	}
}

var FuncVarCritical = func(wr api.Writer, msg string, rep func([]Site)) { wr.Critical(msg); rep(Frames()) }

func FunctionTracef(wr api.Writer, msg string, rep func([]Site)) { wr.Tracef("%s", msg); rep(Frames()) }

func (t ValueT) MTracef(wr api.Writer, msg string, rep func([]Site)) { wr.Tracef("%s", msg); rep(Frames()) }
func ValueTracef(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MTracef(wr, msg, rep) }

func (t *PtrT) MTracef(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Tracef("%s", msg); rep(Frames())
}
func PtrTracef(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MTracef(wr, msg, rep) }

func ClosureTracef(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Tracef("%s", msg); rep(Frames()) }
	f()
}

func NestedTracef(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Tracef("%s", msg); rep(Frames())
		}()
	}()
}

func GoTracef(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Tracef("%s", msg); rep(Frames())
	}()
	<-done
}

func DeferredTracef(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Tracef("%s", msg); rep(Frames())
	}()
	msg += ""
}

func RecoverTracef(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Tracef("%s", msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueTracef(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Tracef
	f("%s", msg); rep(Frames())
}

func MethodExprTracef(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Tracef(wr, "%s", msg); rep(Frames())
}

func EmbeddedTracef(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Tracef("%s", msg); rep(Frames())
}

func genericTracef[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Tracef("%s", msg); rep(Frames()) }
func GenericTracef(wr api.Writer, msg string, rep func([]Site)) {
	genericTracef(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mTracef(wr api.Writer, msg string, rep func([]Site)) { wr.Tracef("%s", msg); rep(Frames()) }
func GenericMTracef(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mTracef(wr, msg, rep)
}

func LoopTracef(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Tracef("%s", msg); rep(Frames())
		}
	}
}

var FuncVarTracef = func(wr api.Writer, msg string, rep func([]Site)) { wr.Tracef("%s", msg); rep(Frames()) }

func FunctionDebugf(wr api.Writer, msg string, rep func([]Site)) { wr.Debugf("%s", msg); rep(Frames()) }

func (t ValueT) MDebugf(wr api.Writer, msg string, rep func([]Site)) { wr.Debugf("%s", msg); rep(Frames()) }
func ValueDebugf(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MDebugf(wr, msg, rep) }

func (t *PtrT) MDebugf(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Debugf("%s", msg); rep(Frames())
}
func PtrDebugf(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MDebugf(wr, msg, rep) }

func ClosureDebugf(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Debugf("%s", msg); rep(Frames()) }
	f()
}

func NestedDebugf(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Debugf("%s", msg); rep(Frames())
		}()
	}()
}

func GoDebugf(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Debugf("%s", msg); rep(Frames())
	}()
	<-done
}

func DeferredDebugf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Debugf("%s", msg); rep(Frames())
	}()
	msg += ""
}

func RecoverDebugf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Debugf("%s", msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueDebugf(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Debugf
	f("%s", msg); rep(Frames())
}

func MethodExprDebugf(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Debugf(wr, "%s", msg); rep(Frames())
}

func EmbeddedDebugf(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Debugf("%s", msg); rep(Frames())
}

func genericDebugf[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Debugf("%s", msg); rep(Frames()) }
func GenericDebugf(wr api.Writer, msg string, rep func([]Site)) {
	genericDebugf(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mDebugf(wr api.Writer, msg string, rep func([]Site)) { wr.Debugf("%s", msg); rep(Frames()) }
func GenericMDebugf(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mDebugf(wr, msg, rep)
}

func LoopDebugf(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Debugf("%s", msg); rep(Frames())
		}
	}
}

var FuncVarDebugf = func(wr api.Writer, msg string, rep func([]Site)) { wr.Debugf("%s", msg); rep(Frames()) }

func FunctionInfof(wr api.Writer, msg string, rep func([]Site)) { wr.Infof("%s", msg); rep(Frames()) }

func (t ValueT) MInfof(wr api.Writer, msg string, rep func([]Site)) { wr.Infof("%s", msg); rep(Frames()) }
func ValueInfof(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MInfof(wr, msg, rep) }

func (t *PtrT) MInfof(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Infof("%s", msg); rep(Frames())
}
func PtrInfof(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MInfof(wr, msg, rep) }

func ClosureInfof(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Infof("%s", msg); rep(Frames()) }
	f()
}

func NestedInfof(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Infof("%s", msg); rep(Frames())
		}()
	}()
}

func GoInfof(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Infof("%s", msg); rep(Frames())
	}()
	<-done
}

func DeferredInfof(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Infof("%s", msg); rep(Frames())
	}()
	msg += ""
}

func RecoverInfof(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Infof("%s", msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueInfof(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Infof
	f("%s", msg); rep(Frames())
}

func MethodExprInfof(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Infof(wr, "%s", msg); rep(Frames())
}

func EmbeddedInfof(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Infof("%s", msg); rep(Frames())
}

func genericInfof[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Infof("%s", msg); rep(Frames()) }
func GenericInfof(wr api.Writer, msg string, rep func([]Site)) {
	genericInfof(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mInfof(wr api.Writer, msg string, rep func([]Site)) { wr.Infof("%s", msg); rep(Frames()) }
func GenericMInfof(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mInfof(wr, msg, rep)
}

func LoopInfof(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Infof("%s", msg); rep(Frames())
		}
	}
}

var FuncVarInfof = func(wr api.Writer, msg string, rep func([]Site)) { wr.Infof("%s", msg); rep(Frames()) }

func FunctionWarnf(wr api.Writer, msg string, rep func([]Site)) { wr.Warnf("%s", msg); rep(Frames()) }

func (t ValueT) MWarnf(wr api.Writer, msg string, rep func([]Site)) { wr.Warnf("%s", msg); rep(Frames()) }
func ValueWarnf(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MWarnf(wr, msg, rep) }

func (t *PtrT) MWarnf(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Warnf("%s", msg); rep(Frames())
}
func PtrWarnf(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MWarnf(wr, msg, rep) }

func ClosureWarnf(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Warnf("%s", msg); rep(Frames()) }
	f()
}

func NestedWarnf(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Warnf("%s", msg); rep(Frames())
		}()
	}()
}

func GoWarnf(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Warnf("%s", msg); rep(Frames())
	}()
	<-done
}

func DeferredWarnf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Warnf("%s", msg); rep(Frames())
	}()
	msg += ""
}

func RecoverWarnf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Warnf("%s", msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueWarnf(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Warnf
	f("%s", msg); rep(Frames())
}

func MethodExprWarnf(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Warnf(wr, "%s", msg); rep(Frames())
}

func EmbeddedWarnf(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Warnf("%s", msg); rep(Frames())
}

func genericWarnf[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Warnf("%s", msg); rep(Frames()) }
func GenericWarnf(wr api.Writer, msg string, rep func([]Site)) {
	genericWarnf(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mWarnf(wr api.Writer, msg string, rep func([]Site)) { wr.Warnf("%s", msg); rep(Frames()) }
func GenericMWarnf(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mWarnf(wr, msg, rep)
}

func LoopWarnf(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Warnf("%s", msg); rep(Frames())
		}
	}
}

var FuncVarWarnf = func(wr api.Writer, msg string, rep func([]Site)) { wr.Warnf("%s", msg); rep(Frames()) }

func FunctionErrorf(wr api.Writer, msg string, rep func([]Site)) { wr.Errorf("%s", msg); rep(Frames()) }

func (t ValueT) MErrorf(wr api.Writer, msg string, rep func([]Site)) { wr.Errorf("%s", msg); rep(Frames()) }
func ValueErrorf(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MErrorf(wr, msg, rep) }

func (t *PtrT) MErrorf(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Errorf("%s", msg); rep(Frames())
}
func PtrErrorf(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MErrorf(wr, msg, rep) }

func ClosureErrorf(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Errorf("%s", msg); rep(Frames()) }
	f()
}

func NestedErrorf(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Errorf("%s", msg); rep(Frames())
		}()
	}()
}

func GoErrorf(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Errorf("%s", msg); rep(Frames())
	}()
	<-done
}

func DeferredErrorf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Errorf("%s", msg); rep(Frames())
	}()
	msg += ""
}

func RecoverErrorf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Errorf("%s", msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueErrorf(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Errorf
	f("%s", msg); rep(Frames())
}

func MethodExprErrorf(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Errorf(wr, "%s", msg); rep(Frames())
}

func EmbeddedErrorf(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Errorf("%s", msg); rep(Frames())
}

func genericErrorf[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Errorf("%s", msg); rep(Frames()) }
func GenericErrorf(wr api.Writer, msg string, rep func([]Site)) {
	genericErrorf(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mErrorf(wr api.Writer, msg string, rep func([]Site)) { wr.Errorf("%s", msg); rep(Frames()) }
func GenericMErrorf(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mErrorf(wr, msg, rep)
}

func LoopErrorf(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Errorf("%s", msg); rep(Frames())
		}
	}
}

var FuncVarErrorf = func(wr api.Writer, msg string, rep func([]Site)) { wr.Errorf("%s", msg); rep(Frames()) }

func FunctionCriticalf(wr api.Writer, msg string, rep func([]Site)) { wr.Criticalf("%s", msg); rep(Frames()) }

func (t ValueT) MCriticalf(wr api.Writer, msg string, rep func([]Site)) { wr.Criticalf("%s", msg); rep(Frames()) }
func ValueCriticalf(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MCriticalf(wr, msg, rep) }

func (t *PtrT) MCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Criticalf("%s", msg); rep(Frames())
}
func PtrCriticalf(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MCriticalf(wr, msg, rep) }

func ClosureCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Criticalf("%s", msg); rep(Frames()) }
	f()
}

func NestedCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Criticalf("%s", msg); rep(Frames())
		}()
	}()
}

func GoCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Criticalf("%s", msg); rep(Frames())
	}()
	<-done
}

func DeferredCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Criticalf("%s", msg); rep(Frames())
	}()
	msg += ""
}

func RecoverCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Criticalf("%s", msg); rep(Frames())
	}()
	panic("x")
}

func MethodValueCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Criticalf
	f("%s", msg); rep(Frames())
}

func MethodExprCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Criticalf(wr, "%s", msg); rep(Frames())
}

func EmbeddedCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Criticalf("%s", msg); rep(Frames())
}

func genericCriticalf[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Criticalf("%s", msg); rep(Frames()) }
func GenericCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	genericCriticalf(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mCriticalf(wr api.Writer, msg string, rep func([]Site)) { wr.Criticalf("%s", msg); rep(Frames()) }
func GenericMCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mCriticalf(wr, msg, rep)
}

func LoopCriticalf(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Criticalf("%s", msg); rep(Frames())
		}
	}
}

var FuncVarCriticalf = func(wr api.Writer, msg string, rep func([]Site)) { wr.Criticalf("%s", msg); rep(Frames()) }

func FunctionPrintf(wr api.Writer, msg string, rep func([]Site)) { wr.Printf(api.Info, "%s", msg); rep(Frames()) }

func (t ValueT) MPrintf(wr api.Writer, msg string, rep func([]Site)) { wr.Printf(api.Info, "%s", msg); rep(Frames()) }
func ValuePrintf(wr api.Writer, msg string, rep func([]Site)) { ValueT{1}.MPrintf(wr, msg, rep) }

func (t *PtrT) MPrintf(wr api.Writer, msg string, rep func([]Site)) {
	t.n++
	wr.Printf(api.Info, "%s", msg); rep(Frames())
}
func PtrPrintf(wr api.Writer, msg string, rep func([]Site)) { new(PtrT).MPrintf(wr, msg, rep) }

func ClosurePrintf(wr api.Writer, msg string, rep func([]Site)) {
	f := func() { wr.Printf(api.Info, "%s", msg); rep(Frames()) }
	f()
}

func NestedPrintf(wr api.Writer, msg string, rep func([]Site)) {
	func() {
		func() {
			wr.Printf(api.Info, "%s", msg); rep(Frames())
		}()
	}()
}

func GoPrintf(wr api.Writer, msg string, rep func([]Site)) {
	done := make(chan bool)
	go func() {
		defer close(done)
		wr.Printf(api.Info, "%s", msg); rep(Frames())
	}()
	<-done
}

func DeferredPrintf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		wr.Printf(api.Info, "%s", msg); rep(Frames())
	}()
	msg += ""
}

func RecoverPrintf(wr api.Writer, msg string, rep func([]Site)) {
	defer func() {
		recover()
		wr.Printf(api.Info, "%s", msg); rep(Frames())
	}()
	panic("x")
}

func MethodValuePrintf(wr api.Writer, msg string, rep func([]Site)) {
	f := wr.Printf
	f(api.Info, "%s", msg); rep(Frames())
}

func MethodExprPrintf(wr api.Writer, msg string, rep func([]Site)) {
	api.Writer.Printf(wr, api.Info, "%s", msg); rep(Frames())
}

func EmbeddedPrintf(wr api.Writer, msg string, rep func([]Site)) {
	var e api.Writer = embT{wr}
	e.Printf(api.Info, "%s", msg); rep(Frames())
}

func genericPrintf[T any](t T, wr api.Writer, msg string, rep func([]Site)) { wr.Printf(api.Info, "%s", msg); rep(Frames()) }
func GenericPrintf(wr api.Writer, msg string, rep func([]Site)) {
	genericPrintf(map[string]int{}, wr, msg, rep)
}

func (t genT[T]) mPrintf(wr api.Writer, msg string, rep func([]Site)) { wr.Printf(api.Info, "%s", msg); rep(Frames()) }
func GenericMPrintf(wr api.Writer, msg string, rep func([]Site)) {
	genT[int]{}.mPrintf(wr, msg, rep)
}

func LoopPrintf(wr api.Writer, msg string, rep func([]Site)) {
	for i := 0; i < 1; i++ {
		if wr != nil {
			wr.Printf(api.Info, "%s", msg); rep(Frames())
		}
	}
}

var FuncVarPrintf = func(wr api.Writer, msg string, rep func([]Site)) { wr.Printf(api.Info, "%s", msg); rep(Frames()) }

// All holds the functions by shape and method.
var All = map[string]map[string]func(api.Writer, string, func([]Site)){
	"function": {
		"Trace": FunctionTrace,
		"Debug": FunctionDebug,
		"Info": FunctionInfo,
		"Warn": FunctionWarn,
		"Error": FunctionError,
		"Critical": FunctionCritical,
		"Tracef": FunctionTracef,
		"Debugf": FunctionDebugf,
		"Infof": FunctionInfof,
		"Warnf": FunctionWarnf,
		"Errorf": FunctionErrorf,
		"Criticalf": FunctionCriticalf,
		"Printf": FunctionPrintf,
	},
	"value method": {
		"Trace": ValueTrace,
		"Debug": ValueDebug,
		"Info": ValueInfo,
		"Warn": ValueWarn,
		"Error": ValueError,
		"Critical": ValueCritical,
		"Tracef": ValueTracef,
		"Debugf": ValueDebugf,
		"Infof": ValueInfof,
		"Warnf": ValueWarnf,
		"Errorf": ValueErrorf,
		"Criticalf": ValueCriticalf,
		"Printf": ValuePrintf,
	},
	"pointer method": {
		"Trace": PtrTrace,
		"Debug": PtrDebug,
		"Info": PtrInfo,
		"Warn": PtrWarn,
		"Error": PtrError,
		"Critical": PtrCritical,
		"Tracef": PtrTracef,
		"Debugf": PtrDebugf,
		"Infof": PtrInfof,
		"Warnf": PtrWarnf,
		"Errorf": PtrErrorf,
		"Criticalf": PtrCriticalf,
		"Printf": PtrPrintf,
	},
	"closure": {
		"Trace": ClosureTrace,
		"Debug": ClosureDebug,
		"Info": ClosureInfo,
		"Warn": ClosureWarn,
		"Error": ClosureError,
		"Critical": ClosureCritical,
		"Tracef": ClosureTracef,
		"Debugf": ClosureDebugf,
		"Infof": ClosureInfof,
		"Warnf": ClosureWarnf,
		"Errorf": ClosureErrorf,
		"Criticalf": ClosureCriticalf,
		"Printf": ClosurePrintf,
	},
	"nested closure": {
		"Trace": NestedTrace,
		"Debug": NestedDebug,
		"Info": NestedInfo,
		"Warn": NestedWarn,
		"Error": NestedError,
		"Critical": NestedCritical,
		"Tracef": NestedTracef,
		"Debugf": NestedDebugf,
		"Infof": NestedInfof,
		"Warnf": NestedWarnf,
		"Errorf": NestedErrorf,
		"Criticalf": NestedCriticalf,
		"Printf": NestedPrintf,
	},
	"goroutine": {
		"Trace": GoTrace,
		"Debug": GoDebug,
		"Info": GoInfo,
		"Warn": GoWarn,
		"Error": GoError,
		"Critical": GoCritical,
		"Tracef": GoTracef,
		"Debugf": GoDebugf,
		"Infof": GoInfof,
		"Warnf": GoWarnf,
		"Errorf": GoErrorf,
		"Criticalf": GoCriticalf,
		"Printf": GoPrintf,
	},
	"deferred closure": {
		"Trace": DeferredTrace,
		"Debug": DeferredDebug,
		"Info": DeferredInfo,
		"Warn": DeferredWarn,
		"Error": DeferredError,
		"Critical": DeferredCritical,
		"Tracef": DeferredTracef,
		"Debugf": DeferredDebugf,
		"Infof": DeferredInfof,
		"Warnf": DeferredWarnf,
		"Errorf": DeferredErrorf,
		"Criticalf": DeferredCriticalf,
		"Printf": DeferredPrintf,
	},
	"recovering closure": {
		"Trace": RecoverTrace,
		"Debug": RecoverDebug,
		"Info": RecoverInfo,
		"Warn": RecoverWarn,
		"Error": RecoverError,
		"Critical": RecoverCritical,
		"Tracef": RecoverTracef,
		"Debugf": RecoverDebugf,
		"Infof": RecoverInfof,
		"Warnf": RecoverWarnf,
		"Errorf": RecoverErrorf,
		"Criticalf": RecoverCriticalf,
		"Printf": RecoverPrintf,
	},
	"method value": {
		"Trace": MethodValueTrace,
		"Debug": MethodValueDebug,
		"Info": MethodValueInfo,
		"Warn": MethodValueWarn,
		"Error": MethodValueError,
		"Critical": MethodValueCritical,
		"Tracef": MethodValueTracef,
		"Debugf": MethodValueDebugf,
		"Infof": MethodValueInfof,
		"Warnf": MethodValueWarnf,
		"Errorf": MethodValueErrorf,
		"Criticalf": MethodValueCriticalf,
		"Printf": MethodValuePrintf,
	},
	"method expression": {
		"Trace": MethodExprTrace,
		"Debug": MethodExprDebug,
		"Info": MethodExprInfo,
		"Warn": MethodExprWarn,
		"Error": MethodExprError,
		"Critical": MethodExprCritical,
		"Tracef": MethodExprTracef,
		"Debugf": MethodExprDebugf,
		"Infof": MethodExprInfof,
		"Warnf": MethodExprWarnf,
		"Errorf": MethodExprErrorf,
		"Criticalf": MethodExprCriticalf,
		"Printf": MethodExprPrintf,
	},
	"embedding struct": {
		"Trace": EmbeddedTrace,
		"Debug": EmbeddedDebug,
		"Info": EmbeddedInfo,
		"Warn": EmbeddedWarn,
		"Error": EmbeddedError,
		"Critical": EmbeddedCritical,
		"Tracef": EmbeddedTracef,
		"Debugf": EmbeddedDebugf,
		"Infof": EmbeddedInfof,
		"Warnf": EmbeddedWarnf,
		"Errorf": EmbeddedErrorf,
		"Criticalf": EmbeddedCriticalf,
		"Printf": EmbeddedPrintf,
	},
	"generic function": {
		"Trace": GenericTrace,
		"Debug": GenericDebug,
		"Info": GenericInfo,
		"Warn": GenericWarn,
		"Error": GenericError,
		"Critical": GenericCritical,
		"Tracef": GenericTracef,
		"Debugf": GenericDebugf,
		"Infof": GenericInfof,
		"Warnf": GenericWarnf,
		"Errorf": GenericErrorf,
		"Criticalf": GenericCriticalf,
		"Printf": GenericPrintf,
	},
	"generic method": {
		"Trace": GenericMTrace,
		"Debug": GenericMDebug,
		"Info": GenericMInfo,
		"Warn": GenericMWarn,
		"Error": GenericMError,
		"Critical": GenericMCritical,
		"Tracef": GenericMTracef,
		"Debugf": GenericMDebugf,
		"Infof": GenericMInfof,
		"Warnf": GenericMWarnf,
		"Errorf": GenericMErrorf,
		"Criticalf": GenericMCriticalf,
		"Printf": GenericMPrintf,
	},
	"loop": {
		"Trace": LoopTrace,
		"Debug": LoopDebug,
		"Info": LoopInfo,
		"Warn": LoopWarn,
		"Error": LoopError,
		"Critical": LoopCritical,
		"Tracef": LoopTracef,
		"Debugf": LoopDebugf,
		"Infof": LoopInfof,
		"Warnf": LoopWarnf,
		"Errorf": LoopErrorf,
		"Criticalf": LoopCriticalf,
		"Printf": LoopPrintf,
	},
	"function variable": {
		"Trace": FuncVarTrace,
		"Debug": FuncVarDebug,
		"Info": FuncVarInfo,
		"Warn": FuncVarWarn,
		"Error": FuncVarError,
		"Critical": FuncVarCritical,
		"Tracef": FuncVarTracef,
		"Debugf": FuncVarDebugf,
		"Infof": FuncVarInfof,
		"Warnf": FuncVarWarnf,
		"Errorf": FuncVarErrorf,
		"Criticalf": FuncVarCriticalf,
		"Printf": FuncVarPrintf,
	},
}
