package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "a case is a random configuration of 2-5 loggers and 2-6 outputs of all types (memory, console, size/time rolling, syslog, custom; sync/async) with random levels and thresholds in random letter case (now and then words which are no levels), and a random sequence of level changes, *Enabled queries and log calls; the content of every output must equal the one computed from the documented order. A case is distinct by (levels, thresholds, output types) and non-trivial when at least one record is delivered and one is filtered out.",
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 200
			if th {
				n, c = 64, 1000
			}
			js := jobs("mix", seed, n, c, nil)
			js = append(js, jobs("matrix", seed, 1, 1, nil)...)
			return js
		},
		Worker: c01,
		Min:    map[string]int{"evaluations": 200, "delivered": 2000, "filtered by level": 1000, "filtered by threshold": 1000, "level changes": 500, "enabled queries": 1000},
	})
}

func c01(w *W) {
	d := startSyslogd(filepath.Join(w.Dir, "syslog.sock"))
	if w.Job.Kind == "matrix" {
		c01matrix(w, d)
		return
	}
	for i := 0; i < w.Job.N && !w.Failed(); i++ {
		c01case(w, d, i)
	}
}

// c01matrix goes through level names, every (level, threshold, method) triple.
func c01matrix(w *W, d *syslogd) {
	for i, l := range levels {
		name := levelNames[l]
		for k := 0; k < 12; k++ {
			s := randCase(w.Rng, name)
			if got := api.LevelFrom(s); got != l {
				w.Fail("level name", "LevelFrom(%q) = %v", s, got)
			}
		}
		if l.String() != name {
			w.Fail("level name", "%d.String() = %q, want %q", l, l.String(), name)
		}
		if i > 0 && levels[i-1] >= l {
			w.Fail("level order", "%v >= %v", levels[i-1], l)
		}
		w.Eval("name " + name)
	}
	// every logger level x threshold, one memory/async/syslog output each
	for _, kind := range []string{"memory", "size", "console-async", "syslog"} {
		for li, ll := range levels {
			b := (&Cfg{}).quietRoot(fmt.Sprintf("m%s%d", kind, li))
			fn := fmt.Sprintf("m%s%df", kind, li)
			b.format(fn, "%{lvl}|%{msg}\n")
			var sinks []*Sink
			lname := fmt.Sprintf("matrix%s%d", kind, li)
			if kind == "console-async" {
				// one console per configuration: one threshold after the other
				for ti, tl := range levels {
					bb := (&Cfg{}).quietRoot(fmt.Sprintf("m%s%d.%d", kind, li, ti))
					bb.format(fn, "%{lvl}|%{msg}\n")
					s := addSink(w, bb, kind, fmt.Sprintf("o%s%d.%d", kind, li, ti), fn, "threshold", randCase(w.Rng, levelNames[tl]))
					ln := fmt.Sprintf("%s.%d", lname, ti)
					bb.logger(ln, randCase(w.Rng, levelNames[ll]), s.name)
					c01all(w, d, bb, []*Sink{s}, ln, ll, []api.Level{tl})
				}
				continue
			}
			var names []string
			for ti, tl := range levels {
				s := addSink(w, b, kind, fmt.Sprintf("o%s%d.%d", kind, li, ti), fn, "threshold", randCase(w.Rng, levelNames[tl]))
				sinks = append(sinks, s)
				names = append(names, s.name)
			}
			b.logger(lname, randCase(w.Rng, levelNames[ll]), names...)
			c01all(w, d, b, sinks, lname, ll, levels)
		}
	}
}

func c01all(w *W, d *syslogd, b *Cfg, sinks []*Sink, lname string, ll api.Level, tls []api.Level) {
	if !loadSinks(w, b, sinks) {
		return
	}
	lg := getLogger(lname)
	want := make([]strings.Builder, len(sinks))
	for k, c := range logCalls {
		msg := fmt.Sprintf("r%d", k)
		c.f(lg, msg)
		for i := range sinks {
			if rank(c.lvl) >= rank(ll) && rank(c.lvl) >= rank(tls[i]) {
				fmt.Fprintf(&want[i], "%s|%s\n", shortNames[c.lvl], msg)
				w.Count("delivered", 1)
			}
		}
	}
	mgr().Close()
	drainSyslog(d, sinks)
	for i, s := range sinks {
		if got := s.content(d); got != want[i].String() {
			w.Fail("filtering", "logger level %v, output %v threshold %v: got %q, want %q", ll, s, tls[i], got, want[i].String())
		}
		w.Eval(fmt.Sprintf("%v %v %s", ll, tls[i], s.kind))
		s.close()
	}
}

func c01case(w *W, d *syslogd, ci int) {
	r := w.Rng
	pfx := fmt.Sprintf("c%d", ci)
	b := &Cfg{}
	fn := pfx + "f"
	b.format(fn, "%{module}|%{lvl}|%{msg}\n")
	nout := 2 + r.Intn(5)
	var sinks []*Sink
	var thr []api.Level
	console := false
	for i := 0; i < nout; i++ {
		kind := pick(r, sinkKinds...)
		if strings.HasPrefix(kind, "console") {
			if console {
				kind = "memory"
			}
			console = true
		}
		t := api.All
		var kv []string
		if kind != "vrec" && r.Intn(4) > 0 {
			t = pick(r, levels...)
			kv = append(kv, "threshold", randCase(r, levelNames[t]))
		} else if kind != "vrec" && r.Intn(3) == 0 {
			// a word which is no level is no threshold
			kv = append(kv, "threshold", randCase(r, pick(r, "warning", "err", "critic", "fatal", "errors", "debug2", "1", "6", "inf", "wrn", "none", "info error", "-")))
		}
		kv = append(kv, "queue_size", fmt.Sprint(1+r.Intn(20)), "batch_num", fmt.Sprint(1+r.Intn(20)))
		sinks = append(sinks, addSink(w, b, kind, fmt.Sprintf("%so%d", pfx, i), fn, kv...))
		thr = append(thr, t)
	}
	type lgr struct {
		name string
		lvl  api.Level
		outs []int
		l    api.Logger
		w    []api.Writer
	}
	var ls []*lgr
	nl := 2 + r.Intn(4)
	for i := 0; i < nl; i++ {
		l := &lgr{name: fmt.Sprintf("%sx%d", pfx, i), lvl: pick(r, levels...)}
		if i == 0 {
			l.name = "root"
		}
		l.outs = r.Perm(nout)[:1+r.Intn(nout)]
		var on []string
		for _, o := range l.outs {
			on = append(on, sinks[o].name)
		}
		b.logger(l.name, randCase(r, levelNames[l.lvl]), on...)
		ls = append(ls, l)
	}
	// half of the loggers are obtained before the configuration is loaded
	for _, l := range ls {
		if r.Intn(2) == 0 {
			getLogger(l.name)
		}
	}
	if !loadSinks(w, b, sinks) {
		return
	}
	for _, l := range ls {
		l.l = getLogger(l.name)
		l.w = []api.Writer{l.l, l.l.WithFields(api.Field{Key: "k", Value: ci}), l.l.WithCtx(context.Background())}
	}
	want := make([]strings.Builder, nout)
	n, nd, nf := 0, 0, 0
	var hist []string
	for k := 0; k < 30+r.Intn(40); k++ {
		l := pick(r, ls...)
		switch r.Intn(8) {
		case 0:
			l.lvl = pick(r, levels...)
			pick(r, l.l, getLogger(l.name)).SetLevel(l.lvl)
			w.Count("level changes", 1)
			hist = append(hist, fmt.Sprintf("%s.SetLevel(%v)", l.name, l.lvl))
		case 1:
			for i, q := range []func() bool{l.l.TraceEnabled, l.l.DebugEnabled, l.l.InfoEnabled, l.l.WarnEnabled, l.l.ErrorEnabled, l.l.CriticalEnabled} {
				lv := recLevels[i]
				exp := rank(lv) >= rank(l.lvl)
				if q() != exp || l.l.LevelEnabled(lv) != exp {
					w.Fail("enabled query", "logger at %v: %vEnabled() = %v, LevelEnabled = %v", l.lvl, lv, q(), l.l.LevelEnabled(lv))
				}
				w.Count("enabled queries", 1)
			}
			if l.l.Level() != l.lvl {
				w.Fail("level", "Level() = %v, want %v", l.l.Level(), l.lvl)
			}
		default:
			c := pick(r, logCalls...)
			msg := fmt.Sprintf("m%d", n)
			n++
			wr := r.Intn(len(l.w))
			c.f(l.w[wr], msg)
			hist = append(hist, fmt.Sprintf("%s.%s(%s)/%d", l.name, c.name, msg, wr))
			for _, o := range l.outs {
				switch {
				case rank(c.lvl) < rank(l.lvl):
					nf++
					w.Count("filtered by level", 1)
				case rank(c.lvl) < rank(thr[o]):
					nf++
					w.Count("filtered by threshold", 1)
				default:
					nd++
					w.Count("delivered", 1)
					fmt.Fprintf(&want[o], "%s|%s|%s\n", l.name, shortNames[c.lvl], msg)
				}
			}
		}
	}
	mgr().Close()
	bad := drainSyslog(d, sinks)
	if len(bad) > 0 {
		w.Fail("filtering", "unexpected syslog message %q", bad[0])
	}
	key := ""
	for i, s := range sinks {
		got := s.content(d)
		if got != want[i].String() {
			w.Fail("filtering", "case %d output %v threshold %v: got %q\nwant %q\nconfiguration %+v\nhistory %v", ci, s, thr[i], got, want[i].String(), b.c, hist)
		}
		key += fmt.Sprintf("%s/%v ", s.kind, thr[i])
		w.Count("outputs "+s.kind, 1)
		if s.path != "" {
			s.close()
			os.Remove(s.path)
		}
	}
	for _, l := range ls {
		key += fmt.Sprint(l.lvl)
	}
	if nd == 0 || nf == 0 {
		key = ""
	}
	w.Eval(key)
	w.Sample("%v: %s -> %d deliveries, %d filtered", key, strings.Join(hist, " "), nd, nf)
}
