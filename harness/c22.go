package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C22",
		Rule: "a round loads a configuration with custom and built-in formats and outputs, some of which differ in the name only or write to one file, shared by several loggers (or lets it be loaded while they are looked up, or loads it again, or registers the creators for a type a second time before), and lets 2-16 goroutines, released together, look up the loggers for the first time in random orders and log through them at once. The creators and the instances they make record every call. Creators called per output and per format, the definition each received, the formatter set before the first record and belonging to the output's format, the same instance handed to every logger, every record delivered exactly once and rendered with the right formatter by custom and built-in outputs alike, and, at the end, every created output closed and flushed by closing the manager. In further rounds some creators fail, always or a few times, while loggers and outputs are looked up and the configuration is loaded again: what was created must have been created once, has its formatter, serves the loggers all of whose outputs can be created, and is closed in the end. Distinct by configuration and by the order of the first records; non-trivial when an output is shared.",
		Assume: []string{
			"creators do not call back into the library",
			"a logger one of whose outputs cannot be created may write elsewhere",
			"a record logged while the first configuration is being loaded may go elsewhere",
		},
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c := 12, 200
			if th {
				n, c = 100, 400
			}
			for _, p := range []int{2, 4, 8, 16} {
				js = append(js, jobs(fmt.Sprintf("p%d", p), seed, n, c, map[string]int{"procs": p})...)
			}
			return append(js, jobs("fail", seed, n, c, nil)...)
		},
		Worker: c22,
		Min:    map[string]int{"evaluations": 1500, "custom outputs created": 2000, "custom formatters created": 1000, "shared outputs": 2000, "built-in outputs with a custom formatter": 500, "custom outputs with a built-in formatter": 500, "records": 50000, "deliveries": 50000, "outputs closed": 2000, "rounds loading while looking up": 200, "rounds loading again": 200, "rounds with failing creators": 500, "failed creations": 1000, "outputs which differ in the name only": 1000, "distinct": 1500},
	})
}

// fmt22 is a custom formatter.
type fmt22 struct {
	id   int
	def  map[string]string
	flag int
}

func (f *fmt22) Format(e *api.Event) []byte {
	return []byte(fmt.Sprintf("<%d %s %s %s> %s\n", f.id, f.def["tag"], levelNames[e.Level], e.Name, e.Message()))
}
func (f *fmt22) CallerInfoFlag() int { return f.flag }

// out22 is a custom output.
type out22 struct {
	id     int
	gen    int // of the creator
	def    map[string]string
	mu     sync.Mutex
	f      api.Formatter
	sets   int
	early  int
	late   int
	closed int
	lines  []string
	where  []string // logger and level of each record
}

func (o *out22) Send(e *api.Event) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.f == nil {
		o.early++
		return
	}
	if o.closed > 0 {
		o.late++
	}
	o.lines = append(o.lines, string(o.f.Format(e)))
	o.where = append(o.where, levelNames[e.Level]+" "+e.Name)
}
func (o *out22) SetFormatter(f api.Formatter) { o.mu.Lock(); o.f = f; o.sets++; o.mu.Unlock() }
func (o *out22) CallerInfoFlag() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.f == nil {
		return 0
	}
	return o.f.CallerInfoFlag()
}
func (o *out22) Close() { o.mu.Lock(); o.closed++; o.mu.Unlock() }

type world22 struct {
	mu    sync.Mutex
	fmts  map[string][]*fmt22
	outs  map[string][]*out22
	all   []*out22
	fgen  [4]int
	ogen  [4]int
	nFmt  int
	badly []string
	delay int
}

func (x *world22) pause() {
	if x.delay < 0 { // creating takes long
		time.Sleep(time.Duration(-x.delay) * time.Millisecond)
		return
	}
	for i := 0; i < x.delay; i++ {
		runtime.Gosched()
	}
}

func (x *world22) regFmt(k int) {
	x.mu.Lock()
	x.fgen[k]++
	x.mu.Unlock()
	typ := fmt.Sprintf("vfmt%d", k)
	mgr().RegisterFormatterCreator(typ, func(cfg api.CfgFormat) (api.Formatter, error) {
		x.pause()
		x.mu.Lock()
		defer x.mu.Unlock()
		x.nFmt++
		f := &fmt22{id: x.nFmt, def: copyMap(cfg), flag: k % 3}
		if cfg.Type() != typ {
			x.badly = append(x.badly, fmt.Sprintf("format %v was made by the creator of %s", cfg, typ))
		}
		x.fmts[cfg.Name()] = append(x.fmts[cfg.Name()], f)
		return f, nil
	})
}

func (x *world22) regOut(k int) {
	x.mu.Lock()
	x.ogen[k]++
	gen := x.ogen[k]
	x.mu.Unlock()
	typ := fmt.Sprintf("vout%d", k)
	mgr().RegisterOutputCreator(typ, func(cfg api.CfgOutput) (api.Output, error) {
		x.pause()
		x.mu.Lock()
		o := &out22{id: len(x.all), gen: gen, def: copyMap(cfg)}
		if cfg.Type() != typ {
			x.badly = append(x.badly, fmt.Sprintf("output %v was made by the creator of %s", cfg, typ))
		}
		x.outs[cfg.Name()] = append(x.outs[cfg.Name()], o)
		x.all = append(x.all, o)
		x.mu.Unlock()
		x.pause()
		return o, nil
	})
}

func c22(w *W) {
	if w.Job.Kind == "fail" {
		c22fail(w)
		return
	}
	gomaxprocs(w)
	r := w.Rng
	x := &world22{fmts: map[string][]*fmt22{}, outs: map[string][]*out22{}}
	for k := 0; k < 3; k++ {
		x.regFmt(k)
		x.regOut(k)
	}
	var lastCheck func(final bool)
	for round := 0; round < w.Job.N && !w.Failed(); round++ {
		pfx := fmt.Sprintf("r%d", round)
		x.delay = pick(r, 0, 0, 3, 30, -1)
		// creators may be replaced; the registered one counts
		for k := 0; k < 3; k++ {
			if r.Intn(4) == 0 {
				x.regFmt(k)
				x.regOut(k)
			}
		}
		b := &Cfg{}
		nf := 1 + r.Intn(3)
		custom := map[string]bool{}
		var fs []string
		for i := 0; i < nf; i++ {
			n := pfx + oddNames["f"][i]
			fs = append(fs, n)
			if r.Intn(3) > 0 {
				custom[n] = true
				b.c.Formats = append(b.c.Formats, api.CfgFormat{"name": n, "type": fmt.Sprintf("vfmt%d", r.Intn(3)), "tag": fmt.Sprintf("T%d", r.Intn(1000)), "more": n})
			} else {
				b.format(n, "%{level} "+n+" %{module} %{msg}\n")
			}
		}
		no := 1 + r.Intn(5)
		if r.Intn(50) == 0 {
			no = pick(r, 17, 33, 65, 130)
			w.Count("loggers with many outputs", 1)
		}
		var os []string
		fmtOf := map[string]string{}
		path := map[string]string{}
		for i := 0; i < no; i++ {
			n := fmt.Sprintf("%so%d", pfx, i)
			if i < len(oddNames["o"]) {
				n = pfx + oddNames["o"][i]
			}
			os = append(os, n)
			f := pick(r, fs...)
			fmtOf[n] = f
			kind := r.Intn(6)
			if i > 0 && r.Intn(4) == 0 { // like another one, but for the name
				twin := pick(r, os[:i]...)
				f = fmtOf[twin]
				fmtOf[n] = f
				d := copyMap(b.c.GetCfgOutput(twin))
				d["name"] = n
				if path[twin] != "" {
					path[n] = path[twin]
				}
				b.c.Outputs = append(b.c.Outputs, d)
				w.Count("outputs which differ in the name only", 1)
				kind = -1
			}
			switch kind {
			case -1:
			case 0:
				b.out(n, "memory", f)
			case 1:
				path[n] = filepath.Join(w.Dir, fmt.Sprintf("%s.%d.log", pfx, i))
				b.out(n, "size_rolling_file", f, "file", path[n], "size", "512M")
			case 2:
				path[n] = filepath.Join(w.Dir, fmt.Sprintf("%s.%d.log", pfx, i))
				b.out(n, "size_rolling_file", f, "file", path[n], "size", "512M", "async", "true", "batch_num", pick(r, "1", "10", "100000"))
			default:
				b.out(n, fmt.Sprintf("vout%d", r.Intn(3)), f, "extra", fmt.Sprint(r.Intn(1000)))
				if !custom[f] {
					w.Count("custom outputs with a built-in formatter", 1)
				}
			}
			if custom[f] && b.c.GetCfgOutput(n).Type()[0] != 'v' {
				w.Count("built-in outputs with a custom formatter", 1)
			}
		}
		nl := 2 + r.Intn(7)
		var ls []string
		users := map[string]int{}
		lo := map[string][]string{}
		for i := 0; i < nl; i++ {
			n := fmt.Sprintf("%s%c", pfx, 'a'+i)
			if i > 0 && r.Intn(3) == 0 {
				n = ls[r.Intn(i)] + pick(r, "/", ".") + string(rune('a'+i))
			}
			ls = append(ls, n)
			var on []string
			for _, k := range r.Perm(no)[:1+r.Intn(no)] {
				on = append(on, os[k])
				users[os[k]]++
			}
			lo[n] = on
			b.logger(n, "all", on...)
		}
		r.Shuffle(len(b.c.Loggers), func(i, j int) { b.c.Loggers[i], b.c.Loggers[j] = b.c.Loggers[j], b.c.Loggers[i] })
		// the root must not write to the console
		b.format(pfx+"rf", "%{msg}\n").out(pfx+"ro", "memory", pfx+"rf").logger("root", "all", pfx+"ro")
		shared := 0
		for _, o := range os {
			if users[o] > 1 {
				shared++
			}
		}
		w.Count("shared outputs", shared)
		mode := r.Intn(6)
		g := 2 + r.Intn(15)
		if mode != 0 {
			if !b.load(w) {
				return
			}
		} else {
			w.Count("rounds loading while looking up", 1)
		}
		// what replaced the outputs of the last round must have closed them
		if lastCheck != nil && mode != 0 {
			lastCheck(false)
			lastCheck = nil
		}
		extra := b
		if mode == 1 { // the same again, as a copy
			w.Count("rounds loading again", 1)
			extra = &Cfg{c: *cloneCfg(&b.c)}
		}
		per := 1 + r.Intn(12)
		orders := make([][]int, g)
		for i := range orders {
			orders[i] = r.Perm(nl)
			if r.Intn(2) == 0 {
				orders[i] = orders[i][:1+r.Intn(nl)]
			}
		}
		var loaded atomic.Bool
		loaded.Store(mode != 0)
		type rec struct{ logger, text string }
		must := make([][]rec, g)
		may := make([][]rec, g)
		got := make([]map[string]api.Output, g)
		var diff atomic.Value
		par(g, func(i int) {
			if i == 0 && mode <= 1 {
				x.pause()
				if err := mgr().SetConfig(&extra.c); err != nil {
					w.Fail("valid configuration refused", "%v", err)
				}
				loaded.Store(true)
			}
			seen := map[string]api.Output{}
			for _, li := range orders[i] {
				n := ls[li]
				if i%4 == 2 && loaded.Load() { // before the logger exists
					ops, _, err := mgr().GetLoggerOutputs(n)
					if err != nil || len(ops) != len(lo[n]) {
						w.Fail("outputs of a logger unavailable", "%s: %d of %d outputs, %v", n, len(ops), len(lo[n]), err)
						return
					}
					for k, o := range ops {
						if p, ok := seen[lo[n][k]]; ok && p != o {
							diff.Store(lo[n][k])
						}
						seen[lo[n][k]] = o
					}
				}
				lg := getLogger(n)
				if i%3 == 1 && loaded.Load() {
					ops, _, err := mgr().GetLoggerOutputs(n)
					if err != nil || len(ops) != len(lo[n]) {
						w.Fail("outputs of a logger unavailable", "%s: %d of %d outputs, %v", n, len(ops), len(lo[n]), err)
						return
					}
					for k, o := range ops {
						if p, ok := seen[lo[n][k]]; ok && p != o {
							diff.Store(lo[n][k])
						}
						seen[lo[n][k]] = o
					}
				}
				for k := 0; k < per; k++ {
					t := fmt.Sprintf("m%d.%d.%d.%d", round, i, li, k)
					ok := loaded.Load()
					lvl := recLevels[(i+k)%len(recLevels)]
					lg.Printf(lvl, "%s", t)
					q := rec{n, levelNames[lvl] + " " + n + " " + t}
					if ok {
						must[i] = append(must[i], q)
					} else {
						may[i] = append(may[i], q)
					}
				}
			}
			got[i] = seen
		})
		// the loggers nobody looked up
		for _, n := range ls {
			getLogger(n)
		}
		inst := map[string]api.Output{}
		for _, n := range ls {
			ops, _, err := mgr().GetLoggerOutputs(n)
			if err != nil || len(ops) != len(lo[n]) {
				w.Fail("outputs of a logger unavailable", "%s: %d of %d outputs, %v", n, len(ops), len(lo[n]), err)
				return
			}
			for k, o := range ops {
				if p, ok := inst[lo[n][k]]; ok && p != o {
					diff.Store(lo[n][k])
				}
				inst[lo[n][k]] = o
			}
		}
		for i := range got {
			for k, o := range got[i] {
				if inst[k] != o {
					diff.Store(k)
				}
			}
		}
		byInst := map[api.Output]string{}
		for o, i := range inst {
			if p, ok := byInst[i]; ok {
				w.Fail("one instance for several outputs", "outputs %s and %s are the same instance; configuration %s", o, p, cfgString(&b.c))
			}
			byInst[i] = o
		}
		if d := diff.Load(); d != nil {
			w.Fail("several instances of one output", "loggers or lookups obtained different instances of %v; configuration %s", d, cfgString(&b.c))
		}
		x.mu.Lock()
		for _, s := range x.badly {
			w.Fail("wrong creator", "%s", s)
		}
		for _, o := range os {
			d := b.c.GetCfgOutput(o)
			if d.Type()[0] != 'v' || users[o] == 0 {
				continue
			}
			is := x.outs[o]
			if len(is) != 1 {
				w.Fail("output not created once", "the creator of output %s was called %d times, %d loggers use it; %d goroutines, mode %d; configuration %s", o, len(is), users[o], g, mode, cfgString(&b.c))
				continue
			}
			w.Count("custom outputs created", 1)
			if api.Output(is[0]) != inst[o] {
				w.Fail("several instances of one output", "output %s is not the instance its creator made", o)
			}
			if fmt.Sprint(is[0].def) != fmt.Sprint(map[string]string(d)) {
				w.Fail("creator received another definition", "output %v, creator received %v", d, is[0].def)
			}
			if k := int(d.Type()[4] - '0'); is[0].gen != x.ogen[k] {
				w.Fail("wrong creator", "output %s was made by a creator which had been replaced", o)
			}
			is[0].mu.Lock()
			if is[0].f == nil || is[0].early > 0 {
				w.Fail("record before the formatter", "output %s: %d records came before the formatter (set %d times)", o, is[0].early, is[0].sets)
			}
			if is[0].closed > 0 {
				w.Fail("configured output closed", "output %s was closed although it is configured", o)
			}
			if custom[fmtOf[o]] {
				if fi := x.fmts[fmtOf[o]]; len(fi) != 1 || is[0].f != api.Formatter(fi[0]) {
					w.Fail("wrong formatter", "output %s does not have the one formatter made for format %s (%d made)", o, fmtOf[o], len(fi))
				}
			}
			is[0].mu.Unlock()
		}
		ftag := map[string]string{}
		for _, f := range fs {
			d := b.c.GetCfgFormat(f)
			if custom[f] {
				fi := x.fmts[f]
				if len(fi) > 1 {
					w.Fail("format not created once", "the creator of format %s was called %d times; configuration %s", f, len(fi), cfgString(&b.c))
				}
				if len(fi) > 0 {
					w.Count("custom formatters created", 1)
					if fmt.Sprint(fi[0].def) != fmt.Sprint(map[string]string(d)) {
						w.Fail("creator received another definition", "format %v, creator received %v", d, fi[0].def)
					}
					ftag[f] = fmt.Sprintf("<%d %s ", fi[0].id, d["tag"])
				}
			}
		}
		x.mu.Unlock()
		// every record once in every output of its logger, rendered by its format
		render := func(f, rec string) string {
			p := strings.SplitN(rec, " ", 3)
			if custom[f] {
				return fmt.Sprintf("%s%s %s> %s\n", ftag[f], p[0], p[1], p[2])
			}
			return fmt.Sprintf("%s %s %s %s\n", p[0], f, p[1], p[2])
		}
		want := map[string]map[string]bool{} // output -> line -> must
		for _, o := range os {
			want[o] = map[string]bool{}
		}
		nrec := 0
		for i := range must {
			for _, q := range must[i] {
				nrec++
				for _, o := range lo[q.logger] {
					want[o][render(fmtOf[o], q.text)] = true
				}
			}
			for _, q := range may[i] {
				for _, o := range lo[q.logger] {
					want[o][render(fmtOf[o], q.text)] = false
				}
				// an unconfigured logger writes where its ancestors write
				for _, a := range ancestors(q.logger) {
					for _, o := range lo[a] {
						want[o][render(fmtOf[o], q.text)] = false
					}
				}
			}
		}
		w.Count("records", nrec)
		custOuts := map[string]*out22{}
		for _, o := range os {
			if is := x.outs[o]; len(is) > 0 {
				custOuts[o] = is[0]
			}
		}
		// each destination has, from each output writing to it, its records once
		check := func(os []string, lines []string) {
			n := map[string]int{}
			for _, l := range lines {
				n[l]++
			}
			most, least := map[string]int{}, map[string]int{}
			for _, o := range os {
				for l, m := range want[o] {
					most[l]++
					if m {
						least[l]++
					}
				}
			}
			for l, k := range n {
				if most[l] == 0 {
					w.Fail("wrong record", "output %s received %q; configuration %s", os, clip(l, 200), cfgString(&b.c))
					return
				}
				if k > most[l] {
					w.Fail("record delivered twice", "output %s received %q %d times; configuration %s", os, clip(l, 200), k, cfgString(&b.c))
					return
				}
			}
			for l, k := range least {
				if n[l] < k {
					w.Fail("record not delivered", "output %s (%v) did not receive %q; configuration %s", os, b.c.GetCfgOutput(os[0]), clip(l, 200), cfgString(&b.c))
					return
				}
			}
			w.Count("deliveries", len(lines))
		}
		ord := ""
		for _, o := range os {
			switch {
			case custOuts[o] != nil:
				custOuts[o].mu.Lock()
				ls := append([]string(nil), custOuts[o].lines...)
				custOuts[o].mu.Unlock()
				check([]string{o}, ls)
				ord += strings.Join(ls[:min(8, len(ls))], "")
			case inst[o] != nil && path[o] == "":
				s := memText(inst[o])
				check([]string{o}, strings.SplitAfter(s, "\n")[:strings.Count(s, "\n")])
			}
		}
		files, outs, cfg := map[string][]string{}, custOuts, b
		for _, o := range os {
			if path[o] != "" && inst[o] != nil {
				files[path[o]] = append(files[path[o]], o)
			}
		}
		lastCheck = func(final bool) {
			how := ifel(final, "closing the manager", "loading a configuration without it")
			for o, c := range outs {
				c.mu.Lock()
				if c.closed == 0 {
					w.Fail("created output not closed", "output %s was not closed by %s; configuration %s", o, how, cfgString(&cfg.c))
				}
				c.mu.Unlock()
				w.Count("outputs closed", 1)
			}
			for p, os := range files {
				s := readFile(p)
				check(os, strings.SplitAfter(s, "\n")[:strings.Count(s, "\n")])
				w.Count("outputs closed", 1)
			}
		}
		key := ""
		if shared > 0 {
			key = hash(cfgString(&b.c) + ord)
		}
		w.Eval(key)
		w.Sample("%d goroutines, %d loggers, mode %d, %d records, outputs %v", g, nl, mode, nrec, b.c.Outputs)
		// now and then close the manager; afterwards everything is new
		if r.Intn(8) == 0 || round == w.Job.N-1 {
			mgr().Close()
			// a closed output is not created once more
			for n := range lo {
				ops, _, err := mgr().GetLoggerOutputs(n)
				if err != nil || len(ops) != len(lo[n]) {
					w.Fail("outputs of a logger unavailable", "after the manager was closed, %s: %d of %d outputs, %v", n, len(ops), len(lo[n]), err)
					continue
				}
				for k, o := range ops {
					if i, ok := inst[lo[n][k]]; ok && i != o {
						w.Fail("output not created once", "output %s was created again when logger %s was looked up after the manager was closed; configuration %s", lo[n][k], n, cfgString(&b.c))
					}
				}
				w.Count("loggers looked up after a close", 1)
			}
			lastCheck(true)
			lastCheck = nil
			if round == w.Job.N-1 {
				x.mu.Lock()
				for _, o := range x.all {
					o.mu.Lock()
					if o.closed == 0 {
						w.Fail("created output not closed", "output %v was not closed when the manager was closed", o.def)
					}
					o.mu.Unlock()
				}
				x.mu.Unlock()
			}
		}
	}
}

// c22fail: creators of outputs and formats which fail, always or for some time. An output
// or format is created successfully once at most, however often loggers ask for it, has
// its formatter, and is closed in the end; loggers whose outputs can all be created have
// them.
func c22fail(w *W) {
	gomaxprocs(w)
	r := w.Rng
	var mu sync.Mutex
	made := map[string][]*out22{}
	fmade := map[string]int{}
	left := map[string]int{} // calls which still fail
	failures := 0
	try := func(name string) error {
		mu.Lock()
		defer mu.Unlock()
		if left[name] > 0 {
			left[name]--
			failures++
			w.Count("failed creations", 1)
			return fmt.Errorf("not now")
		}
		return nil
	}
	mgr().RegisterOutputCreator("f22o", func(cfg api.CfgOutput) (api.Output, error) {
		for i := r0(cfg.Name()); i > 0; i-- {
			runtime.Gosched()
		}
		if err := try(cfg.Name()); err != nil {
			return nil, err
		}
		o := &out22{def: copyMap(cfg)}
		mu.Lock()
		made[cfg.Name()] = append(made[cfg.Name()], o)
		mu.Unlock()
		return o, nil
	})
	mgr().RegisterFormatterCreator("f22f", func(cfg api.CfgFormat) (api.Formatter, error) {
		if err := try(cfg.Name()); err != nil {
			return nil, err
		}
		mu.Lock()
		fmade[cfg.Name()]++
		mu.Unlock()
		return &fmt22{def: copyMap(cfg)}, nil
	})
	for round := 0; round < w.Job.N && !w.Failed(); round++ {
		pfx := fmt.Sprintf("x%d", round)
		b := (&Cfg{}).quietRoot(pfx)
		bad := map[string]bool{} // may fail
		var fs, os []string
		fail := func(n string) {
			mu.Lock()
			left[n] = pick(r, 1, 2, 5, 1<<30)
			mu.Unlock()
			bad[n] = true
		}
		for i := 0; i < 2; i++ {
			n := fmt.Sprintf("%sf%d", pfx, i)
			fs = append(fs, n)
			b.c.Formats = append(b.c.Formats, api.CfgFormat{"name": n, "type": "f22f", "tag": n})
			if i == 1 && r.Intn(3) == 0 {
				fail(n)
			}
		}
		fmtOf := map[string]string{}
		for i := 0; i < 2+r.Intn(4); i++ {
			n := fmt.Sprintf("%so%d", pfx, i)
			os = append(os, n)
			fmtOf[n] = fs[pick(r, 0, 0, 1)]
			b.out(n, "f22o", fmtOf[n])
			if i > 0 && r.Intn(3) == 0 {
				fail(n)
			}
			if bad[fmtOf[n]] {
				bad[n] = true
			}
		}
		lo := map[string][]string{}
		clean := map[string]bool{}
		var ls []string
		for i := 0; i < 2+r.Intn(5); i++ {
			n := fmt.Sprintf("%s%c", pfx, 'a'+i)
			if i > 0 && r.Intn(3) == 0 {
				n = ls[r.Intn(i)] + "/" + string(rune('a'+i))
			}
			ls = append(ls, n)
			clean[n] = true
			for _, k := range r.Perm(len(os))[:1+r.Intn(len(os))] {
				lo[n] = append(lo[n], os[k])
				clean[n] = clean[n] && !bad[os[k]]
			}
			b.logger(n, "all", lo[n]...)
		}
		if !b.load(w) {
			return
		}
		g := 1 + r.Intn(8)
		reload := r.Intn(3) == 0
		sent := make([]map[string]int, g)
		seeds := make([]int64, g)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		par(g, func(i int) {
			rr := rand.New(rand.NewSource(seeds[i]))
			sent[i] = map[string]int{}
			for k := 0; k < 12; k++ {
				n := ls[rr.Intn(len(ls))]
				switch rr.Intn(3) {
				case 0:
					ops, _, err := mgr().GetLoggerOutputs(n)
					if clean[n] && (err != nil || len(ops) != len(lo[n])) {
						w.Fail("outputs of a logger unavailable", "%s: %d of %d outputs, %v, while others fail; configuration %s", n, len(ops), len(lo[n]), err, cfgString(&b.c))
					}
				case 1:
					getLogger(n).Infof("m%d.%d.%d", round, i, k)
					sent[i][n]++
				case 2:
					if reload && i == 0 {
						mgr().SetConfig(&b.c)
					}
				}
			}
		})
		mu.Lock()
		fails := failures
		failures = 0
		want := map[string]int{}
		for _, m := range sent {
			for n, c := range m {
				if clean[n] {
					for _, o := range lo[n] {
						want[o] += c
					}
				}
			}
		}
		for _, f := range fs {
			if fmade[f] > 1 {
				w.Fail("format not created once", "the creator of format %s succeeded %d times; %d creations failed; configuration %s", f, fmade[f], fails, cfgString(&b.c))
			}
		}
		for _, o := range os {
			is := made[o]
			if len(is) > 1 {
				w.Fail("output not created once", "the creator of output %s succeeded %d times; %d creations failed; configuration %s", o, len(is), fails, cfgString(&b.c))
			}
			if len(is) == 0 {
				if want[o] > 0 {
					w.Fail("output not created", "output %s was never created, loggers %v log to it; %d creations failed; configuration %s", o, ls, fails, cfgString(&b.c))
				}
				continue
			}
			c := is[0]
			c.mu.Lock()
			if c.f == nil || c.early > 0 {
				w.Fail("record before the formatter", "output %s: %d records came before the formatter (set %d times)", o, c.early, c.sets)
			} else if f, ok := c.f.(*fmt22); !ok || f.def["tag"] != fmtOf[o] {
				w.Fail("wrong formatter", "output %s has not the formatter of %s", o, fmtOf[o])
			}
			if c.closed > 0 {
				w.Fail("configured output closed", "output %s was closed although it is configured", o)
			}
			got := map[string]int{}
			for i, l := range c.lines {
				got[l]++
				if got[l] > 1 {
					w.Fail("record delivered twice", "output %s received %q twice", o, l)
				}
				_, lg, _ := strings.Cut(c.where[i], " ")
				if clean[lg] {
					want[o]--
				}
			}
			if want[o] != 0 {
				w.Fail("record not delivered", "output %s: %d records of loggers whose outputs can all be created are missing (negative: too many); %d creations failed; configuration %s", o, want[o], fails, cfgString(&b.c))
			}
			c.mu.Unlock()
		}
		if fails > 0 {
			w.Count("rounds with failing creators", 1)
		}
		mu.Unlock()
		how := "loading a configuration without it"
		if r.Intn(3) == 0 {
			how = "closing the manager"
			mgr().Close()
		}
		if !(&Cfg{}).quietRoot(pfx + "z").load(w) {
			return
		}
		mu.Lock()
		for _, o := range os {
			for _, c := range made[o] {
				c.mu.Lock()
				if c.closed == 0 {
					w.Fail("created output not closed", "output %s was not closed by %s; %d creations failed; configuration %s", o, how, fails, cfgString(&b.c))
				}
				c.mu.Unlock()
				w.Count("outputs closed", 1)
			}
		}
		mu.Unlock()
		w.Eval(ifel(fails > 0, hash(cfgString(&b.c)), ""))
		w.Sample("failing creators: %d goroutines, %d loggers, %d creations failed, outputs %v", g, len(ls), fails, b.c.Outputs)
	}
}

func r0(s string) int { return len(s) * 7 % 30 }
