package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C27",
		Rule: "records with spies among their arguments, fields and contexts (Stringer, error, fmt.Formatter, GoStringer, context.Context; alone or inside slices, maps, structures and joined errors) are logged at random levels through random trees of loggers with changing levels and outputs of all types with thresholds. The spies count every call made to them. A record which no output takes (its logger's level is higher, or every output's threshold is, or there are no outputs) must never call any of them, neither during the call nor later, nor a custom formatter or output; a record which some output shows must show the spies' text. Distinct by the record's logger, level, thresholds and kinds of spies; non-trivial when the record was suppressed.",
		Assume: []string{
			"custom outputs decide on thresholds themselves: they are handed every record the level lets pass",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 60
			if th {
				n, c = 200, 200
			}
			return jobs("spy", seed, n, c, nil)
		},
		Worker: c27,
		Min:    map[string]int{"evaluations": 100000, "suppressed by level": 50000, "suppressed by thresholds": 10000, "no outputs": 1000, "taken by some outputs": 5000, "shown": 50000, "distinct": 5000, "inherited outputs": 10000, "level set by SetLevel": 5000, "records without arguments": 5000},
	})
}

// spy counts the calls of its methods.
type spy struct {
	id    int
	calls atomic.Int32
}

func (s *spy) hit() string { s.calls.Add(1); return fmt.Sprintf("spy%d", s.id) }

type spyStr struct{ s *spy }
type spyErr struct{ s *spy }
type spyFmt struct{ s *spy }
type spyGo struct{ s *spy }
type spyCtx struct {
	context.Context
	s *spy
}
type spyFunc func() string

func (x spyStr) String() string             { return x.s.hit() }
func (x spyErr) Error() string              { return x.s.hit() }
func (x spyFmt) Format(f fmt.State, _ rune) { f.Write([]byte(x.s.hit())) }
func (x spyGo) GoString() string            { return x.s.hit() }
func (x spyFunc) String() string            { return x() }
func (x spyCtx) Value(k any) any {
	if k == "cv" {
		return x.s.hit()
	}
	if _, ok := k.(string); ok && k != "__caller_info" { // the library may keep its own there
		x.s.calls.Add(1)
	}
	return nil
}

// fmt27 is a custom formatter which counts what it is asked to format.
type fmt27 struct{ n atomic.Int32 }

func (f *fmt27) CallerInfoFlag() int { return 0 }
func (f *fmt27) Format(e *api.Event) []byte {
	f.n.Add(1)
	return []byte(e.Message() + "\n")
}

// newSpyValue returns a value of kind k with the spy and its text.
func newSpyValue(s *spy, k int) (v any, text string) {
	text = fmt.Sprintf("spy%d", s.id)
	switch k {
	case 0:
		v = spyStr{s}
	case 1:
		v = spyErr{s}
	case 2:
		v = spyFmt{s}
	case 3:
		v = spyGo{s}
	case 4:
		v, text = []spyStr{{s}, {s}}, "["+text+" "+text+"]"
	case 5:
		v, text = map[string]error{"k": spyErr{s}}, "map[k:"+text+"]"
	case 6:
		v, text = struct {
			A spyFmt
			B int
		}{spyFmt{s}, 3}, "{"+text+" 3}"
	case 7:
		v, text = errors.Join(spyErr{s}), text
	case 8:
		v = spyFunc(func() string { return s.hit() })
	}
	return
}

func c27(w *W) {
	r := w.Rng
	f27 := &fmt27{}
	mgr().RegisterFormatterCreator("f27", func(api.CfgFormat) (api.Formatter, error) { return f27, nil })
	useRec()
	d := startSyslogd(w.Dir + "/syslog.sock")
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("q%d", ci)
		b := &Cfg{}
		noRoot := r.Intn(4) == 0 // then some loggers have no outputs at all
		if noRoot {
			b.logger("root", "all")
		} else {
			b.quietRoot(pfx)
		}
		var sinks []*Sink
		thr := map[string]api.Level{}
		kinds := map[string]string{}
		cons := false
		var names []string
		for i := 0; i < 1+r.Intn(4); i++ {
			kind := pick(r, sinkKinds...)
			if strings.HasPrefix(kind, "console") {
				if cons {
					kind = "memory"
				}
				cons = true
			}
			f := fmt.Sprintf("%sf%d", pfx, i)
			if r.Intn(4) == 0 {
				b.c.Formats = append(b.c.Formats, api.CfgFormat{"name": f, "type": "f27"})
			} else {
				b.format(f, pick(r, "%{msg} %{cv}\n", "%{level} %{msg}\n", "%{shortfile} %{msg:s} %{cv:v}\n", "%{longfunc} %{msg}\n"))
			}
			n := fmt.Sprintf("%so%d", pfx, i)
			t := pick(r, levels...)
			if r.Intn(3) == 0 {
				t = api.Error
			}
			thr[n], kinds[n] = t, kind
			if kind == "vrec" {
				thr[n] = api.All
			}
			names = append(names, n)
			sinks = append(sinks, addSink(w, b, kind, n, f, "threshold", randCase(r, levelNames[t]), "batch_num", pick(r, "1", "7")))
		}
		type lg struct {
			l    api.Logger
			name string
			lvl  api.Level
			outs []string
			inh  bool
			set  bool
		}
		rootOuts := []string{"-root"}
		if noRoot {
			rootOuts = nil
		}
		var ls []*lg
		add := func(name string, par *lg) {
			g := &lg{name: name, lvl: api.All, outs: rootOuts, inh: true}
			if par != nil {
				g.lvl, g.outs = par.lvl, par.outs
			}
			if k := r.Intn(3); k > 0 {
				var own []string
				if k == 2 || par == nil {
					r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
					own = append(own, names[:1+r.Intn(len(names))]...)
					g.outs, g.inh = own, false
				}
				g.lvl = pick(r, levels...)
				b.logger(name, randCase(r, levelNames[g.lvl]), own...)
			}
			ls = append(ls, g)
		}
		add(pfx, nil)
		for i := 0; i < r.Intn(5); i++ {
			p := pick(r, ls...)
			add(fmt.Sprintf("%s%s%d", p.name, pick(r, "/", "."), i), p)
		}
		if !loadSinks(w, b, sinks) {
			return
		}
		for _, g := range ls {
			g.l = getLogger(g.name)
		}
		type rec struct {
			s       *spy
			what    string
			taken   []string
			msg     string
			cv      bool
			key     string
			counted int32 // of the custom formatter, during the call
		}
		var rs []rec
		customs := func() int32 { return f27.n.Load() }
		recCount := func() (n int) {
			for _, s := range sinks {
				if s.kind == "vrec" {
					if x := recOf(s.name); x != nil {
						x.mu.Lock()
						n += len(x.events)
						x.mu.Unlock()
					}
				}
			}
			return
		}
		for k := 0; k < 150; k++ {
			g := pick(r, ls...)
			if r.Intn(10) == 0 {
				// only leaves: the levels of others are inherited
				leaf := true
				for _, o := range ls {
					if strings.HasPrefix(o.name, g.name) && o != g {
						leaf = false
					}
				}
				if leaf {
					g.lvl, g.set = pick(r, levels...), true
					g.l.SetLevel(g.lvl)
				}
			}
			s := &spy{id: w.Rng.Intn(1 << 30)}
			verb := "%v"
			vk := r.Intn(9)
			v, text := newSpyValue(s, vk)
			if vk == 3 {
				verb = "%#v"
			}
			var wr api.Writer = g.l
			cv := false
			fk := r.Intn(9)
			fv, _ := newSpyValue(s, fk)
			switch r.Intn(5) {
			case 4:
				cv = true
				fields := []api.Field{{Key: "cv", Value: fv}}
				for i := 0; i < 1+r.Intn(3); i++ {
					ov, _ := newSpyValue(s, r.Intn(9))
					fields = append(fields, api.Field{Key: pick(r, "cv", "other", "msg", "a"), Value: ov})
				}
				r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
				wr = g.l.WithFields(fields...)
			case 0:
				wr = g.l.WithFields(api.Field{Key: "cv", Value: fv})
				cv = true
			case 1:
				wr = g.l.WithCtx(spyCtx{context.Background(), s})
				cv = true
			case 2:
				wr = g.l.WithCtx(context.WithValue(context.Background(), "cv", fv))
				cv = true
			}
			made := s.calls.Load() // by making the writer
			lvl := pick(r, recLevels...)
			en := rank(lvl) >= rank(g.lvl)
			c0, r0 := customs(), recCount()
			how := r.Intn(3)
			head := fmt.Sprintf("m%d.%d:", ci, k)
			if verb == "%#v" && how == 0 {
				how = 1
			}
			if cv && r.Intn(5) == 0 { // no arguments
				how, text = 3, ""
				w.Count("records without arguments", 1)
			}
			switch how {
			case 0:
				switch lvl {
				case api.Trace:
					wr.Trace(head, v, ";")
				case api.Debug:
					wr.Debug(head, v, ";")
				case api.Info:
					wr.Info(head, v, ";")
				case api.Warn:
					wr.Warn(head, v, ";")
				case api.Error:
					wr.Error(head, v, ";")
				default:
					wr.Critical(head, v, ";")
				}
			case 1:
				f := head + verb + ";"
				switch lvl {
				case api.Trace:
					wr.Tracef(f, v)
				case api.Debug:
					wr.Debugf(f, v)
				case api.Info:
					wr.Infof(f, v)
				case api.Warn:
					wr.Warnf(f, v)
				case api.Error:
					wr.Errorf(f, v)
				default:
					wr.Criticalf(f, v)
				}
			case 3:
				switch lvl {
				case api.Trace:
					wr.Tracef(head + ";")
				case api.Debug:
					wr.Debugf(head + ";")
				case api.Info:
					wr.Infof(head + ";")
				case api.Warn:
					wr.Warnf(head + ";")
				case api.Error:
					wr.Errorf(head + ";")
				default:
					wr.Criticalf(head + ";")
				}
			default:
				wr.Printf(lvl, head+verb+";", v)
			}
			x := rec{s: s, msg: head + text + ";", cv: cv}
			if en {
				for _, o := range g.outs {
					if o == "-root" || rank(lvl) >= rank(thr[o]) {
						x.taken = append(x.taken, o)
					}
				}
			}
			x.what = fmt.Sprintf("%s(%v) through %s at level %s to outputs %v (thresholds %v), spies of kinds %d and (field or context) %d", levelNames[lvl], how, g.name, levelNames[g.lvl], g.outs, thr, vk, fk)
			if made > 0 {
				w.Fail("evaluated although nobody takes it", "making a writer called the spies %d times: %s", made, x.what)
			}
			switch {
			case !en:
				w.Count("suppressed by level", 1)
				if customs() != c0 || recCount() != r0 {
					w.Fail("handed on although suppressed", "a suppressed record reached a custom formatter (%d) or output (%d): %s", customs()-c0, recCount()-r0, x.what)
				}
			case len(g.outs) == 0:
				w.Count("no outputs", 1)
			case len(x.taken) == 0:
				w.Count("suppressed by thresholds", 1)
				if customs() != c0 {
					w.Fail("handed on although suppressed", "a record no output takes reached a custom formatter: %s", x.what)
				}
			case len(x.taken) < len(g.outs):
				w.Count("taken by some outputs", 1)
			}
			if g.inh && len(g.outs) > 0 {
				w.Count("inherited outputs", 1)
			}
			if g.set {
				w.Count("level set by SetLevel", 1)
			}
			if len(x.taken) == 0 {
				x.key = fmt.Sprint(g.name, lvl, g.lvl, thr, g.outs, vk, how, cv, fk)
			}
			rs = append(rs, x)
		}
		mgr().Close()
		drainSyslog(d, sinks)
		content := map[string]string{}
		for _, s := range sinks {
			content[s.name] = s.content(d)
			s.close()
		}
		for _, x := range rs {
			n := x.s.calls.Load()
			if len(x.taken) == 0 && n > 0 {
				w.Fail("evaluated although nobody takes it", "the spies were called %d times: %s", n, x.what)
			}
			for _, o := range x.taken {
				if o == "-root" {
					continue
				}
				c := strings.Count(content[o], x.msg)
				if c != 1 {
					w.Fail("not shown", "output %s (%s) shows %q %d times (the spies were called %d times): %s", o, kinds[o], x.msg, c, n, x.what)
					break
				}
				w.Count("shown", 1)
			}
			w.Eval(x.key)
		}
		w.Sample("loggers %v; outputs %v with thresholds %v; %s", len(ls), sinks, thr, rs[0].what)
	}
}
