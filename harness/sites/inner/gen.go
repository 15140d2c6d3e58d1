// Code generated by tools/mksites.py. DO NOT EDIT.

package inner

import (
	"vmon/sites"

	"github.com/xtfly/log4g/api"
)

type Site = sites.Site

var Frames = func() []Site { return sites.FramesAt(1) }

func FunctionTrace(wr api.Writer, msg string, rep func([]Site)) { wr.Trace(msg); rep(Frames()) }

func FunctionDebug(wr api.Writer, msg string, rep func([]Site)) { wr.Debug(msg); rep(Frames()) }

func FunctionInfo(wr api.Writer, msg string, rep func([]Site)) { wr.Info(msg); rep(Frames()) }

func FunctionWarn(wr api.Writer, msg string, rep func([]Site)) { wr.Warn(msg); rep(Frames()) }

func FunctionError(wr api.Writer, msg string, rep func([]Site)) { wr.Error(msg); rep(Frames()) }

func FunctionCritical(wr api.Writer, msg string, rep func([]Site)) { wr.Critical(msg); rep(Frames()) }

func FunctionTracef(wr api.Writer, msg string, rep func([]Site)) { wr.Tracef("%s", msg); rep(Frames()) }

func FunctionDebugf(wr api.Writer, msg string, rep func([]Site)) { wr.Debugf("%s", msg); rep(Frames()) }

func FunctionInfof(wr api.Writer, msg string, rep func([]Site)) { wr.Infof("%s", msg); rep(Frames()) }

func FunctionWarnf(wr api.Writer, msg string, rep func([]Site)) { wr.Warnf("%s", msg); rep(Frames()) }

func FunctionErrorf(wr api.Writer, msg string, rep func([]Site)) { wr.Errorf("%s", msg); rep(Frames()) }

func FunctionCriticalf(wr api.Writer, msg string, rep func([]Site)) { wr.Criticalf("%s", msg); rep(Frames()) }

func FunctionPrintf(wr api.Writer, msg string, rep func([]Site)) { wr.Printf(api.Info, "%s", msg); rep(Frames()) }

// All holds the functions by shape and method.
var All = map[string]map[string]func(api.Writer, string, func([]Site)){
	"inner function": {
		"Trace": FunctionTrace,
		"Debug": FunctionDebug,
		"Info": FunctionInfo,
		"Warn": FunctionWarn,
		"Error": FunctionError,
		"Critical": FunctionCritical,
		"Tracef": FunctionTracef,
		"Debugf": FunctionDebugf,
		"Infof": FunctionInfof,
		"Warnf": FunctionWarnf,
		"Errorf": FunctionErrorf,
		"Criticalf": FunctionCriticalf,
		"Printf": FunctionPrintf,
	},
}
