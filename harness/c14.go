package main

import (
	"context"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"

	"vmon/sites"
	abcd "vmon/sites/a-b_c~d"
	dotted "vmon/sites/dot.ted"
	"vmon/sites/inner"
	"vmon/sites/q"
	qx "vmon/sites/q.x"
	q2 "vmon/sites/q/v2"
)

func init() {
	register(&Check{
		ID:   "C14",
		Rule: "a case is a tree of loggers with outputs (synchronous and asynchronous, of several types, each with a random layout of call-site verbs or none) at one level and calls from below it, through generated call sites: 13 logging methods, 17 shapes of code (functions, methods, closures, goroutines, deferred and recovering functions, method values and expressions, embedding, generics, other packages), receivers (logger, fields, context, context of another event, fields named like a verb or like something internal), deeper stacks and caller skips. The statement following each call on the same line records the real stack with the runtime package; each output must show its frames. Non-trivial when a call-site verb was shown; distinct by shape, method, receiver, depth, skip and layout.",
		Assume: []string{
			"logging methods used directly as operand of go and defer have no statement of their own that calls them, they are not generated",
			"the position of a call within one line is the line of the call",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 200
			if th {
				n, c = 256, 1000
			}
			return jobs("site", seed, n, c, nil)
		},
		Worker: c14,
		Min:    map[string]int{"evaluations": 30000, "call sites shown": 30000, "through inherited outputs": 5000, "asynchronous": 5000, "with caller skip": 3000, "with large caller skip": 200, "shapes and methods": 221, "receivers": 5, "distinct": 10000},
	})
}

type c14verb struct{ verb, spec string }

func c14layout(r *rand.Rand) (vs []c14verb, layout string) {
	all := []string{"longfile", "shortfile", "line", "longpkg", "shortpkg", "longfunc", "shortfunc"}
	for _, i := range r.Perm(len(all)) {
		if r.Intn(2) == 0 {
			v := c14verb{verb: all[i]}
			if r.Intn(4) == 0 {
				v.spec = map[bool]string{true: "06d", false: "-30s"}[all[i] == "line"]
			}
			vs = append(vs, v)
		}
	}
	if r.Intn(6) == 0 {
		vs = nil
	}
	var b strings.Builder
	for _, v := range vs {
		b.WriteString("%{" + v.verb + ifel(v.spec != "", ":"+v.spec, "") + "}\t")
	}
	return vs, b.String() + "%{msg}\n"
}

func c14want(vs []c14verb, s sites.Site, msg string) string {
	var b strings.Builder
	i := strings.LastIndexByte(s.Func, '/')
	j := i + 1 + strings.IndexByte(s.Func[i+1:], '.')
	pkg, fun := s.Func[:j], s.Func[j+1:]
	if p, err := url.PathUnescape(pkg); err == nil {
		pkg = p
	}
	short := strings.ReplaceAll(fun, "[...]", "[]")
	short = strings.ReplaceAll(short[strings.LastIndexByte(short, '.')+1:], "[]", "[...]")
	for _, v := range vs {
		var x any
		switch v.verb {
		case "longfile":
			x = s.File
		case "shortfile":
			x = filepath.Base(s.File)
		case "line":
			x = s.Line
		case "longpkg":
			x = pkg
		case "shortpkg":
			x = path.Base(pkg)
		case "longfunc":
			x = fun
		case "shortfunc":
			x = short
		}
		fmt.Fprintf(&b, "%"+ifel(v.spec == "", "v", v.spec)+"\t", x)
	}
	return b.String() + msg + "\n"
}

// evtOut takes events which want the call site as flag says.
type evtOut struct {
	flag int
	f    func(*api.Event)
}

func (o *evtOut) Send(e *api.Event)          { o.f(e) }
func (o *evtOut) SetFormatter(api.Formatter) {}
func (o *evtOut) CallerInfoFlag() int        { return o.flag }
func (o *evtOut) Close()                     {}

func c14(w *W) {
	r := w.Rng
	useRec()
	type fn struct {
		shape, method string
		f             func(api.Writer, string, func([]sites.Site))
	}
	var fns []fn
	for _, m := range []map[string]map[string]func(api.Writer, string, func([]sites.Site)){sites.All, inner.All, dotted.All, q.All, q2.All, qx.All, abcd.All} {
		for sh, ms := range m {
			for me, f := range ms {
				fns = append(fns, fn{sh, me, f})
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		return fns[i].shape+"/"+fns[i].method < fns[j].shape+"/"+fns[j].method
	})
	if w.Job.P["i"] == 0 {
		w.Count("shapes and methods", len(fns))
	}
	var evts []*api.Event
	for flag := 0; flag < 3; flag++ {
		l := getLogger(fmt.Sprintf("events%d", flag))
		l.SetLevel(api.All)
		l.SetOutputs([]api.Output{&evtOut{flag, func(e *api.Event) { evts = append(evts, e) }}})
		l.Info("elsewhere")
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("s%d", ci)
		type target struct {
			sink *Sink
			vs   []c14verb
			want strings.Builder
			lay  string
			n    int
		}
		b := (&Cfg{}).quietRoot(pfx)
		var ts []*target
		var sinks []*Sink
		var names []string
		console := false
		for i := 0; i < 1+r.Intn(4); i++ {
			t := &target{}
			t.vs, t.lay = c14layout(r)
			fn := fmt.Sprintf("%sf%d", pfx, i)
			b.format(fn, t.lay)
			kind := pick(r, "memory", "vrec", "size", "size-async", "time-async", "time", "console", "console-async")
			if strings.HasPrefix(kind, "console") {
				if console {
					kind = "size-async"
				}
				console = true
			}
			t.sink = addSink(w, b, kind, fmt.Sprintf("%so%d", pfx, i), fn)
			ts = append(ts, t)
			sinks = append(sinks, t.sink)
			names = append(names, t.sink.name)
		}
		name := pfx
		chain := []string{name}
		for d := r.Intn(6); d > 0; d-- {
			name += pick(r, "/", ".") + pick(r, "x", "y")
			chain = append(chain, name)
		}
		b.logger(pfx, "all", names...)
		viaAPI := r.Intn(4) == 0 && len(chain) > 1
		owner := 0
		if !loadSinks(w, b, sinks) {
			return
		}
		if viaAPI { // outputs set with the API on a logger in between
			owner = r.Intn(len(chain))
			var outs []api.Output
			for _, t := range ts {
				outs = append(outs, t.sink.out)
			}
			getLogger(chain[owner]).SetOutputs(outs)
		}
		for k := 0; k < 40; k++ {
			f := fns[r.Intn(len(fns))]
			li := r.Intn(len(chain))
			if li < owner {
				li = owner
			}
			lg := getLogger(chain[li])
			depth := r.Intn(7)
			if r.Intn(40) == 0 {
				depth = 10 + r.Intn(150)
			}
			skip := 0
			if r.Intn(3) == 0 {
				skip = 1 + r.Intn(3+depth)
			}
			var wr api.Writer = lg
			recv := pick(r, "logger", "fields", "context", "event context", "like-named field")
			w.Key("receivers", recv)
			switch recv {
			case "fields":
				wr = lg.WithFields(api.Field{Key: "a", Value: 1})
			case "event context": // passed on by an output
				wr = lg.WithCtx(pick(r, evts...).Ctx)
			case "like-named field":
				wr = lg.WithFields(api.Field{Key: pick(r, "__caller_info", "line", "longfile", "shortfunc"), Value: "x"})
			case "context":
				wr = lg.WithCtx(context.WithValue(context.Background(), "k", 1))
			}
			if r.Intn(4) == 0 { // obtained before the skip is set
				lg.SetCallerSkip(skip)
			}
			lg.SetCallerSkip(skip)
			if f.shape == "goroutine" && skip > 0 {
				skip = 0
				lg.SetCallerSkip(0)
			}
			msg := fmt.Sprintf("%d %s", k, payload(recKey{ci, k}, 10))
			var frames []sites.Site
			n := 0
			sites.Via(depth, func() { f.f(wr, msg, func(fr []sites.Site) { frames = fr; n++ }) })
			lg.SetCallerSkip(0)
			if n != 1 || skip >= len(frames) {
				fatal("c14: %d reports, %d frames", n, len(frames))
			}
			if skip > 0 {
				w.Count("with caller skip", 1)
				if skip > 20 {
					w.Count("with large caller skip", 1)
				}
			}
			for _, t := range ts {
				t.want.WriteString(c14want(t.vs, frames[skip], msg))
				t.n++
				key := ""
				if len(t.vs) > 0 {
					key = hash(fmt.Sprint(f.shape, f.method, recv, depth, skip, t.lay, t.sink.kind))
					w.Count("call sites shown", 1)
				}
				if li > owner {
					w.Count("through inherited outputs", 1)
				}
				if t.sink.async {
					w.Count("asynchronous", 1)
				}
				w.Eval(key)
			}
		}
		for _, t := range ts {
			t.sink.out.Close()
		}
		for _, t := range ts {
			got := strings.SplitAfter(t.sink.content(nil), "\n")
			want := strings.SplitAfter(t.want.String(), "\n")
			for i := range want {
				g := ""
				if i < len(got) {
					g = got[i]
				}
				if g != want[i] {
					w.Fail("wrong call site", "case %d layout %q on %s, inherited through %d levels: record %d is %q, should be %q", ci, t.lay, t.sink.kind, len(chain)-1, i, g, want[i])
					break
				}
			}
			t.sink.close()
			if t.sink.path != "" {
				os.RemoveAll(t.sink.path)
			}
		}
		w.Sample("layouts on %s and descendants: %v", chain, func() (ls []string) {
			for _, t := range ts {
				ls = append(ls, fmt.Sprintf("%q on %s", t.lay, t.sink.kind))
			}
			return
		}())
	}
	_ = time.Now
}
