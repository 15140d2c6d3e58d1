package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C18",
		Rule: "built with the race detector. Pair episodes run each pair of API operations against each other on fresh loggers for each output type and layout; pairs include outputs with a common format which no logger has used before; mixed episodes run random operations from 2 to 12 goroutines with rotating and archiving files, reloads, closes, signals and flush timers (virtual time). The harness shares no lock or atomic between the goroutines during an episode, so that it orders nothing. A report counts when a stack of one of the two accesses goes through the library. Distinct by episode; non-trivial when operations of different goroutines overlapped in time.",
		Assume: []string{
			"a race that the detector sees only in schedules or accesses that did not happen is missed",
			"values passed to the library are not changed by the harness meanwhile (see C19)",
		},
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c, m := 16, 1, 12
			if th {
				n, c, m = 96, 4, 60
			}
			js = append(js, jobs("pairs", seed, n, c, nil)...)
			js = append(js, jobs("mix", seed, n, m, nil)...)
			js = append(js, jobs("timers", seed, 8, m, map[string]int{"bubble": 1})...)
			return js
		},
		Worker:  c18,
		Timeout: 200 * time.Second,
		Min:     map[string]int{"evaluations": 3000, "operations": 200000, "overlapping pairs of operations": 50000, "kinds of pairs that overlapped": 150, "distinct": 1200},
	})
}

type op18 struct {
	kind   uint8
	t0, t1 int64
}

// env18 is what the operations of one episode work on. It is not changed while they run.
type env18 struct {
	w       *W
	pfx     string
	dir     string
	names   []string
	loggers []api.Logger
	outs    []api.Output
	cfgs    []*api.Config
	yaml    []string
	json    []string
	files   []string
	kind    string
	own     []*Rec
	start   time.Time
	bubble  bool
}

type opDef struct {
	name string
	f    func(e *env18, r *rand.Rand)
}

func lg18(e *env18, r *rand.Rand) api.Logger { return e.loggers[r.Intn(len(e.loggers))] }

var ops18 = []opDef{
	{"log", func(e *env18, r *rand.Rand) { logCalls[r.Intn(12)].f(lg18(e, r), "message") }},
	{"printf", func(e *env18, r *rand.Rand) { logCalls[12+r.Intn(6)].f(lg18(e, r), "message") }},
	{"fields", func(e *env18, r *rand.Rand) {
		w := lg18(e, r).WithFields(api.Field{Key: "k", Value: r.Intn(9)}, api.Field{Key: "j", Value: "v"})
		w.Infof("a %d", 1)
		w.Printf(api.Error, "b")
	}},
	{"context", func(e *env18, r *rand.Rand) {
		lg18(e, r).WithCtx(context.WithValue(context.Background(), "k", "c")).Warn("x") //nolint
	}},
	{"enabled", func(e *env18, r *rand.Rand) {
		l := lg18(e, r)
		_ = l.TraceEnabled() || l.DebugEnabled() || l.InfoEnabled() || l.WarnEnabled() || l.ErrorEnabled() || l.CriticalEnabled()
		l.LevelEnabled(pick(r, levels...))
		l.Level()
	}},
	{"set level", func(e *env18, r *rand.Rand) { lg18(e, r).SetLevel(pick(r, levels[:5]...)) }},
	{"set outputs", func(e *env18, r *rand.Rand) {
		a, b := r.Intn(len(e.outs)+1), r.Intn(len(e.outs)+1)
		lg18(e, r).SetOutputs(append([]api.Output(nil), e.outs[min(a, b):max(a, b)]...))
	}},
	{"set skip", func(e *env18, r *rand.Rand) { lg18(e, r).SetCallerSkip(r.Intn(3)) }},
	{"get logger", func(e *env18, r *rand.Rand) { getLogger(e.names[r.Intn(len(e.names))]).Debug("y") }},
	{"new logger", func(e *env18, r *rand.Rand) {
		getLogger(e.names[r.Intn(len(e.names))] + fmt.Sprintf("/n%d/m", r.Intn(20))).Info("z")
	}},
	{"get outputs", func(e *env18, r *rand.Rand) { mgr().GetLoggerOutputs(e.names[r.Intn(len(e.names))]) }},
	{"set config", func(e *env18, r *rand.Rand) { mgr().SetConfig(e.cfgs[r.Intn(len(e.cfgs))]) }},
	{"load text", func(e *env18, r *rand.Rand) {
		if r.Intn(2) == 0 {
			mgr().LoadConfig([]byte(e.yaml[r.Intn(len(e.yaml))]), "yaml")
		} else {
			mgr().LoadConfig([]byte(e.json[r.Intn(len(e.json))]), "json")
		}
	}},
	{"load file", func(e *env18, r *rand.Rand) { mgr().LoadConfigFile(e.files[r.Intn(len(e.files))]) }},
	{"bad config", func(e *env18, r *rand.Rand) { mgr().LoadConfig([]byte("{formats: 3"), "yaml") }},
	{"register format", func(e *env18, r *rand.Rand) {
		mgr().RegisterFormatterCreator(fmt.Sprintf("vf%d", r.Intn(3)), newFmt18)
	}},
	{"register output", func(e *env18, r *rand.Rand) {
		mgr().RegisterOutputCreator(fmt.Sprintf("vo%d", r.Intn(3)), func(api.CfgOutput) (api.Output, error) { return &plainOut{}, nil })
	}},
	{"close", func(e *env18, r *rand.Rand) { mgr().Close() }},
	{"close output", func(e *env18, r *rand.Rand) { e.outs[r.Intn(len(e.outs))].Close() }},
}

type fmt18 struct{}

func newFmt18(api.CfgFormat) (api.Formatter, error) { return fmt18{}, nil }
func (fmt18) Format(e *api.Event) []byte            { return []byte(e.Message() + "\n") }
func (fmt18) CallerInfoFlag() int                   { return 2 }

// plainOut has no lock: nothing the harness does may order the goroutines.
type plainOut struct{ f api.Formatter }

func (o *plainOut) Send(e *api.Event)            { o.f.Format(e) }
func (o *plainOut) SetFormatter(f api.Formatter) { o.f = f }
func (o *plainOut) CallerInfoFlag() int          { return o.f.CallerInfoFlag() }
func (o *plainOut) Close()                       {}

const fullLayout = "%{time:2006-01-02T15:04:05.000} %{pid} %{program} %{level:-8s} %{lvl} %{module} %{longfile}:%{line} %{shortfile} %{longpkg} %{shortpkg} %{longfunc} %{shortfunc} %{k} %{msg}\n"

var kinds18 = []string{"memory", "console", "console-async", "size", "size-async", "time", "time-async", "syslog", "custom", "size-gzip", "size-zip", "rotate-async", "inherited"}

func (e *env18) config(r *rand.Rand, kind string, v int) *api.Config {
	b := &Cfg{}
	b.quietRoot(e.pfx)
	b.format(e.pfx+"f", pick(r, fullLayout, "%{msg}\n", "%{time} %{level} %{module} %{k} %{msg} %{shortfile}:%{line}\n"))
	if v > 1 {
		b.format(e.pfx+"g", fmt.Sprintf("v%d %%{msg}\n", v))
	}
	b.c.Formats = append(b.c.Formats, api.CfgFormat{"type": "vf0", "name": e.pfx + "c"})
	var on []string
	for i := 0; i < 1+r.Intn(2); i++ {
		n := fmt.Sprintf("%so%d", e.pfx, i)
		on = append(on, n)
		ff := e.pfx + pick(r, "f", "f", "c", ifel(v > 1, "g", "f"))
		file := filepath.Join(e.dir, n, "rf.log")
		kv := []string{"file", file, "backups", pick(r, "1", "2", "5"), "size", pick(r, "100", "1K", "1M"), "pattern", "2006-01-02 15:04:05.000", "queue_size", pick(r, "1", "5", "100"), "batch_num", pick(r, "1", "3", "50"), "threshold", pick(r, "", "info", "")}
		k := kind
		if k == "inherited" || i > 0 {
			k = pick(r, kinds18[:len(kinds18)-1]...)
		}
		if strings.HasSuffix(k, "-async") {
			kv = append(kv, "async", "true")
		}
		switch k {
		case "custom":
			b.out(n, "vo0", ff)
		case "memory":
			b.out(n, "memory", ff)
		case "console", "console-async":
			b.out(n, "console", ff, kv...)
		case "syslog":
			b.out(n, "syslog", ff, "prefix", n)
		case "size-gzip", "size-zip":
			b.out(n, "size_rolling_file", ff, append(kv, "archive", k[5:], "size", "200")...)
		case "time", "time-async":
			b.out(n, "time_rolling_file", ff, kv...)
		default:
			b.out(n, "size_rolling_file", ff, kv...)
		}
	}
	// outputs, sharing a format, which no logger has used before
	b.format(e.pfx+"uf", fullLayout)
	for i := 0; i < 2; i++ {
		n := fmt.Sprintf("%su%d", e.pfx, i)
		switch r.Intn(4) {
		case 0:
			b.out(n, "size_rolling_file", e.pfx+"uf", "file", filepath.Join(e.dir, n, "rf.log"), "size", pick(r, "100", "1M"), "async", pick(r, "true", "false"))
		case 1:
			b.out(n, "vo0", e.pfx+"uf")
		default:
			b.out(n, "memory", e.pfx+"uf")
		}
	}
	b.logger(e.pfx+"u", "all", e.pfx+"u0", e.pfx+"u1")
	for i, n := range e.names {
		if n == "root" {
			continue
		}
		switch {
		case kind == "inherited" && i > 1:
		case v%2 == 1 && r.Intn(2) == 0:
		default:
			b.logger(n, pick(r, "all", "debug", ""), on[:1+r.Intn(len(on))]...)
		}
	}
	return &b.c
}

func c18(w *W) {
	bubble := w.Job.P["bubble"] == 1
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	quietStderr18()
	if !bubble {
		startSyslogd(filepath.Join(w.Dir, "syslog.sock"))
	}
	mgr().RegisterFormatterCreator("vf0", newFmt18)
	mgr().RegisterOutputCreator("vo0", func(api.CfgOutput) (api.Output, error) { return &plainOut{}, nil })
	pairsSeen := map[int]bool{}
	ep := 0
	episode := func(kind string, G int, script func(g int, r *rand.Rand, do func(k int))) {
		ep++
		r := w.Rng
		e := &env18{w: w, pfx: fmt.Sprintf("p%d", ep), kind: kind, bubble: bubble}
		e.dir = filepath.Join(w.Dir, e.pfx)
		e.names = []string{e.pfx + "a", e.pfx + "a/b", e.pfx + "a/b.c"}
		if r.Intn(4) == 0 {
			e.names = append(e.names, "root")
		}
		for v := 0; v < 3; v++ {
			kd := kind
			if bubble && kd == "syslog" {
				kd = "memory"
			}
			c := e.config(r, kd, v)
			if bubble {
				for i := range c.Outputs {
					if c.Outputs[i].Type() == "syslog" {
						c.Outputs[i] = api.CfgOutput{"name": c.Outputs[i].Name(), "type": "memory", "format": c.Outputs[i].FormatName()}
					}
				}
			}
			e.cfgs = append(e.cfgs, c)
			e.yaml = append(e.yaml, yamlText(r, c))
			e.json = append(e.json, jsonText(r, c))
			f := filepath.Join(w.Dir, fmt.Sprintf("c%d.yaml", v))
			os.WriteFile(f, []byte(e.yaml[v]), 0644)
			e.files = append(e.files, f)
		}
		if err := mgr().SetConfig(e.cfgs[0]); err != nil {
			w.Fail("valid configuration refused", "%v", err)
			return
		}
		for _, n := range e.names {
			e.loggers = append(e.loggers, getLogger(n))
			ops, _, _ := mgr().GetLoggerOutputs(n)
			e.outs = append(e.outs, ops...)
		}
		unused, _, _ := mgr().GetLoggerOutputs(e.pfx + "u")
		e.outs = append(e.outs, unused...)
		if len(e.outs) == 0 {
			e.outs = []api.Output{&plainOut{f: fmt18{}}}
		}
		hist := make([][]op18, G)
		seeds := make([]int64, G)
		for g := range seeds {
			seeds[g] = r.Int63()
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		t0 := time.Now()
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seeds[g]))
				var h []op18
				<-start
				script(g, rr, func(k int) {
					a := time.Since(t0)
					ops18[k].f(e, rr)
					h = append(h, op18{uint8(k), int64(a), int64(time.Since(t0))})
				})
				hist[g] = h
			}(g)
		}
		close(start)
		wg.Wait()
		// overlaps of operations of different goroutines
		type ev struct {
			t    int64
			g, k int
			end  bool
		}
		var evs []ev
		n := 0
		for g, h := range hist {
			for _, o := range h {
				n++
				evs = append(evs, ev{o.t0, g, int(o.kind), false}, ev{o.t1, g, int(o.kind), true})
			}
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
		open := map[int]int{}
		over := 0
		for _, v := range evs {
			if v.end {
				delete(open, v.g)
				continue
			}
			for _, k := range open {
				over++
				a, b := min(k, v.k), max(k, v.k)
				pairsSeen[a*100+b] = true
			}
			open[v.g] = v.k
		}
		w.Count("operations", n)
		w.Count("overlapping pairs of operations", over)
		w.CountMax("kinds of pairs that overlapped in one process", len(pairsSeen))
		key := ""
		if over > 0 || bubble {
			key = fmt.Sprintf("%d %d %d %v", w.Job.Seed, ep, over, kind)
		}
		w.Eval(key)
		if ep%200 == 1 {
			w.Sample("%s output, %d goroutines, %d operations, %d overlaps: %s", kind, G, n, over, sample18(hist))
		}
		// leave nothing running
		if err := mgr().SetConfig(&(&Cfg{}).quietRoot("end" + e.pfx).c); err != nil {
			w.Fail("valid configuration refused", "%v", err)
		}
		os.RemoveAll(e.dir)
	}
	switch w.Job.Kind {
	case "pairs":
		for c := 0; c < w.Job.N; c++ {
			i := 0
			for a := range ops18 {
				for b := a; b < len(ops18); b++ {
					// each process takes one output type for each pair, all types in turn
					kind := kinds18[(i+w.Job.P["i"]+c)%len(kinds18)]
					i++
					G := pick(w.Rng, 2, 2, 3, 4)
					n := pick(w.Rng, 2, 5, 15)
					runtime.GOMAXPROCS(pick(w.Rng, 1, 2, 4, 8))
					episode(kind, G, func(g int, r *rand.Rand, do func(int)) {
						for k := 0; k < n; k++ {
							do([]int{a, b}[g%2])
						}
					})
				}
			}
		}
	case "mix", "timers":
		for c := 0; c < w.Job.N && !w.Failed(); c++ {
			G := 2 + w.Rng.Intn(11)
			n := pick(w.Rng, 20, 100, 300)
			if !bubble {
				runtime.GOMAXPROCS(pick(w.Rng, 1, 2, 4, 8, 8))
			}
			heavy := w.Rng.Intn(3) // how many other operations than logging
			sig := w.Rng.Intn(4) == 0 && !bubble
			episode(kinds18[(c+w.Job.P["i"])%len(kinds18)], G, func(g int, r *rand.Rand, do func(int)) {
				for k := 0; k < n; k++ {
					if bubble && r.Intn(10) == 0 {
						time.Sleep(time.Duration(r.Intn(6000)) * time.Millisecond)
					}
					if sig && g == 0 && k == n/2 {
						syscall.Kill(os.Getpid(), syscall.SIGTERM)
					}
					if r.Intn(3) >= heavy {
						do(r.Intn(5))
					} else {
						do(r.Intn(len(ops18)))
					}
				}
			})
		}
	}
	for p := range pairsSeen {
		w.Key("kinds of pairs that overlapped", fmt.Sprint(p))
	}
}

func sample18(hist [][]op18) string {
	var s []string
	for g, h := range hist {
		var t []string
		for i, o := range h {
			if i < 3 {
				t = append(t, fmt.Sprintf("%s@%dus", ops18[o.kind].name, o.t0/1000))
			}
		}
		if g < 4 {
			s = append(s, strings.Join(t, ","))
		}
	}
	return strings.Join(s, " | ")
}

// quietStderr18 is called before any goroutine of the library could use os.Stderr.
func quietStderr18() { quietStderr() }
