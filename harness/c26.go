package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C26",
		Rule: "the values logged (Stringer, error, fmt.Formatter, GoStringer), the contexts, custom formatters and custom outputs act while they are being used by a logging call: they log further records (up to four levels deep, now and then hundreds, at the same or other loggers, plainly, with fields, with a context that acts in turn), look loggers up, query and set levels and outputs, load configurations (valid and refused), ask for outputs, register creators, and, in some cases, panic, end their goroutine, or close the manager; from 1-8 goroutines, over all output types, while others reconfigure. A watchdog decides whether a call never returns; after closing, every output must have every record of every level of nesting exactly once and whole (a record during whose call something panicked may be absent or odd; after a close records may be absent). setup: creators, SetFormatter, CallerInfoFlag, Close, Send or Format of custom formatters and outputs panic or end the goroutine in the middle of lookups, loads, closes, SetOutputs and records; afterwards a load must be accepted and every record must reach exactly its outputs. Distinct by the sequence of nested actions; non-trivial when records were nested.",
		Assume: []string{
			"creators do not call back into the library, and outputs do not from CallerInfoFlag or SetFormatter",
			"nobody logs from within the standard logger's destination",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 16, 60
			if th {
				n, c = 100, 200
			}
			js := jobs("nest", seed, n, c, nil)
			js = append(js, jobs("panic", seed, n, c, nil)...)
			js = append(js, jobs("close", seed, n/2, c, nil)...)
			js = append(js, jobs("setup", seed, n, c, nil)...)
			return append(js, jobs("admin", seed, n, c, nil)...)
		},
		Worker:  c26,
		Timeout: 60 * time.Second,
		Min: map[string]int{"evaluations": 1500, "nested records": 100000, "nested three deep": 5000, "records of two goroutines or more": 50000,
			"act: load": 2000, "act: refused load": 2000, "act: SetLevel": 2000, "act: SetOutputs": 2000, "act: new logger": 2000, "act: register": 1000,
			"panics": 500, "goroutines ended": 200, "closes from within": 100,
			"at: value": 10000, "at: formatter": 10000, "at: output": 10000, "at: context": 5000, "distinct": 1000,
			"calls broken by set-up": 2000, "records after broken calls": 10000, "broken: close": 100, "broken: new config": 500, "broken: lookup": 100, "broken: SetOutputs": 50, "broken configurations loaded again": 200},
	})
}

// nest is what acts: the state of one record.
type nest struct {
	x     *world26
	id    int
	size  int
	depth int // levels of nesting left
	up    *nest
	acts  atomic.Int32 // actions so far
	odd   atomic.Bool  // something panicked during the call
	many  bool         // other goroutines log as well
}

type nestStr struct{ *nest }
type nestErr struct{ *nest }
type nestFmt struct{ *nest }
type nestGo struct{ *nest }

func (n nestStr) String() string { n.act("value"); return payload(recKey{0, n.id}, n.size) }
func (n nestErr) Error() string  { n.act("value"); return payload(recKey{0, n.id}, n.size) }
func (n nestFmt) Format(s fmt.State, _ rune) {
	n.act("value")
	s.Write([]byte(payload(recKey{0, n.id}, n.size)))
}
func (n nestGo) GoString() string { n.act("value"); return payload(recKey{0, n.id}, n.size) }
func nestOf(e *api.Event) *nest {
	for _, a := range e.Arguments {
		switch v := a.(type) {
		case nestStr:
			return v.nest
		case nestErr:
			return v.nest
		case nestFmt:
			return v.nest
		case nestGo:
			return v.nest
		}
	}
	return nil
}

// ctx26 acts when its value is asked for.
type ctx26 struct {
	context.Context
	n *nest
}

func (c ctx26) Value(k any) any {
	if k == "cx" {
		c.n.act("context")
		return fmt.Sprintf("c%d", c.n.id)
	}
	return c.Context.Value(k)
}

// fmt26 is a custom formatter.
type fmt26 struct{ flag int }

func (f *fmt26) CallerInfoFlag() int { return f.flag }
func (f *fmt26) Format(e *api.Event) []byte {
	if n := nestOf(e); n != nil {
		n.act("formatter")
	}
	return []byte(fmt.Sprintf("%v\x01%s\n", e.Ctx.Value("cx"), e.Message()))
}

// out26 is a custom output.
type out26 struct {
	mu    sync.Mutex
	f     api.Formatter
	lines strings.Builder
}

func (o *out26) Send(e *api.Event) {
	n := nestOf(e)
	if n != nil {
		n.act("output")
	}
	o.mu.Lock()
	f := o.f
	o.mu.Unlock()
	b := f.Format(e)
	o.mu.Lock()
	o.lines.Write(b)
	o.mu.Unlock()
	if n != nil {
		n.act("output")
	}
}
func (o *out26) SetFormatter(f api.Formatter) { o.mu.Lock(); o.f = f; o.mu.Unlock() }
func (o *out26) CallerInfoFlag() int          { return 0 }
func (o *out26) Close()                       {}

var outs26 sync.Map // name -> *out26
var once26 sync.Once

type world26 struct {
	w        *W
	pfx      string
	kind     string
	mu       sync.Mutex
	rng      *rand.Rand
	left     int // records this case may still log
	recs     []*nest
	want     map[string][]int // output -> ids of records
	trace    uint64
	names    []string // loggers
	outsOf   map[string][]string
	lvlOf    map[string]api.Level
	cfgs     []*api.Config
	closed   atomic.Bool
	extra    atomic.Int32
	counts   map[string]int
	withCtx  map[int]bool
	topCalls int
}

func (x *world26) intn(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.rng.Intn(n)
}

func (x *world26) count(s string) {
	x.mu.Lock()
	x.counts[s]++
	x.mu.Unlock()
}

// act is called from within a logging call.
func (n *nest) act(where string) {
	x := n.x
	if n.depth <= 0 || n.acts.Add(1) > 4 {
		return
	}
	x.mu.Lock()
	x.counts["at: "+where]++
	k := x.rng.Intn(16)
	y := x.rng.Intn(1 << 20)
	x.trace = x.trace*1099511628211 + uint64(k)
	x.mu.Unlock()
	name := x.names[y%len(x.names)]
	switch k {
	default:
		x.record(n.depth-1, n, n.many)
	case 8:
		x.count("act: new logger")
		nm := fmt.Sprintf("%s/n%d", name, x.extra.Add(1))
		if getLogger(nm) != getLogger(nm) {
			x.w.Fail("not the same logger", "GetLogger(%q) twice within a logging call", nm)
		}
	case 9:
		x.count("act: SetLevel")
		l := getLogger(name)
		l.SetLevel(x.lvlOf[name])
		l.LevelEnabled(api.Info)
		l.SetCallerSkip(y % 3)
	case 10:
		ops, _, err := mgr().GetLoggerOutputs(name)
		if err == nil {
			x.count("act: SetOutputs")
			getLogger(name).SetOutputs(ops)
		}
	case 11:
		x.count("act: load")
		if err := mgr().SetConfig(x.cfgs[y%len(x.cfgs)]); err != nil {
			x.w.Fail("valid configuration refused", "SetConfig = %v", err)
		}
	case 12:
		x.count("act: refused load")
		if mgr().LoadConfig([]byte("loggers: [{name: a, outputs: [nope]}]"), "yaml") == nil {
			x.w.Fail("bad configuration accepted", "an undefined output was accepted within a logging call")
		}
	case 13:
		x.count("act: register")
		mgr().RegisterOutputCreator(fmt.Sprintf("t26%d", y%50), func(api.CfgOutput) (api.Output, error) { return nil, errors.New("no") })
		mgr().RegisterFormatterCreator(fmt.Sprintf("t26%d", y%50), func(api.CfgFormat) (api.Formatter, error) { return nil, errors.New("no") })
	case 14:
		if x.kind == "panic" {
			for p := n; p != nil; p = p.up {
				p.odd.Store(true)
			}
			if y%3 == 0 {
				x.count("goroutines ended")
				runtime.Goexit()
			}
			x.count("panics")
			switch y % 4 {
			case 0:
				panic(errors.New("deliberate"))
			case 1:
				var p *nest
				_ = p.id // nil dereference
			}
			panic("deliberate")
		}
		x.record(n.depth-1, n, n.many)
	case 15:
		if x.kind == "close" && y%8 == 0 {
			x.count("closes from within")
			x.closed.Store(true)
			mgr().Close()
			return
		}
		x.record(n.depth-1, n, n.many)
	}
}

// record logs one record.
func (x *world26) record(depth int, up *nest, many bool) {
	x.mu.Lock()
	if x.left <= 0 {
		x.mu.Unlock()
		return
	}
	x.left--
	r := x.rng
	n := &nest{x: x, id: len(x.recs), depth: depth, up: up, many: many, size: pick(r, 0, 3, 20, 200, r.Intn(3000))}
	x.recs = append(x.recs, n)
	if up != nil {
		x.counts["nested records"]++
		if up.up != nil && up.up.up != nil {
			x.counts["nested three deep"]++
		}
		for d, p := 0, up; depth > 4 && p != nil; p = p.up {
			if d++; d == 100 {
				x.counts["nested a hundred deep"]++
			}
		}
	}
	if many {
		x.counts["records of two goroutines or more"]++
	}
	name := pick(r, x.names...)
	lvl := pick(r, recLevels...)
	if rank(lvl) >= rank(x.lvlOf[name]) {
		for _, o := range x.outsOf[name] {
			x.want[o] = append(x.want[o], n.id)
		}
	}
	how, ctxKind, vk := r.Intn(3), r.Intn(4), r.Intn(4)
	if ctxKind == 0 {
		x.withCtx[n.id] = true
	}
	x.mu.Unlock()

	var v any
	verb := "%v"
	switch vk {
	case 0:
		v = nestStr{n}
	case 1:
		v = nestErr{n}
	case 2:
		v = nestFmt{n}
	default:
		if how == 0 { // Sprint knows no GoStringer
			v = nestStr{n}
		} else {
			v, verb = nestGo{n}, "%#v"
		}
	}
	lg := getLogger(name)
	var wr api.Writer = lg
	switch ctxKind {
	case 0:
		wr = lg.WithCtx(ctx26{context.Background(), n})
	case 1:
		wr = lg.WithFields(api.Field{Key: "other", Value: v})
	}
	head := fmt.Sprintf("R0.%d.%d:", n.id, n.size)
	if how == 0 {
		switch lvl {
		case api.Trace:
			wr.Trace(head, v, ";")
		case api.Debug:
			wr.Debug(head, v, ";")
		case api.Info:
			wr.Info(head, v, ";")
		case api.Warn:
			wr.Warn(head, v, ";")
		case api.Error:
			wr.Error(head, v, ";")
		default:
			wr.Critical(head, v, ";")
		}
		return
	}
	f := "%s" + verb + "%s"
	if how == 2 {
		wr.Printf(lvl, f, head, v, ";")
		return
	}
	switch lvl {
	case api.Trace:
		wr.Tracef(f, head, v, ";")
	case api.Debug:
		wr.Debugf(f, head, v, ";")
	case api.Info:
		wr.Infof(f, head, v, ";")
	case api.Warn:
		wr.Warnf(f, head, v, ";")
	case api.Error:
		wr.Errorf(f, head, v, ";")
	default:
		wr.Criticalf(f, head, v, ";")
	}
}

// top logs a record as a program does, surviving panics.
func (x *world26) top(many bool) {
	depth := 1 + x.intn(4)
	if x.intn(40) == 0 {
		depth = 600 // as deep as there are records left
		x.count("very deep")
	}
	if x.kind != "panic" {
		x.record(depth, nil, many)
		return
	}
	done := make(chan bool)
	go func() { // may be ended
		defer close(done)
		defer func() { recover() }()
		x.record(depth, nil, many)
	}()
	<-done
}

func c26(w *W) {
	if w.Job.Kind == "setup" {
		c26setup(w)
		return
	}
	r := w.Rng
	once26.Do(func() {
		for k := 0; k < 3; k++ {
			k := k
			mgr().RegisterFormatterCreator(fmt.Sprintf("f26%d", k), func(api.CfgFormat) (api.Formatter, error) { return &fmt26{flag: k}, nil })
		}
		mgr().RegisterOutputCreator("o26", func(cfg api.CfgOutput) (api.Output, error) {
			o := &out26{}
			outs26.Store(cfg.Name(), o)
			return o, nil
		})
	})
	d := startSyslogd(w.Dir + "/syslog.sock")
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		runtime.GOMAXPROCS(pick(r, 1, 2, 4, 8))
		c26case(w, d, ci)
	}
}

func c26case(w *W, d *syslogd, ci int) {
	r := w.Rng
	pfx := fmt.Sprintf("q%d", ci)
	x := &world26{w: w, pfx: pfx, kind: w.Job.Kind, rng: rand.New(rand.NewSource(r.Int63())), left: 100 + r.Intn(500),
		want: map[string][]int{}, outsOf: map[string][]string{}, lvlOf: map[string]api.Level{}, counts: map[string]int{}, withCtx: map[int]bool{}}
	b := (&Cfg{}).quietRoot(pfx)
	var sinks []*Sink
	var names []string
	cons := false
	for i := 0; i < 1+r.Intn(4); i++ {
		f := fmt.Sprintf("%sf%d", pfx, i)
		if r.Intn(3) == 0 {
			b.c.Formats = append(b.c.Formats, api.CfgFormat{"name": f, "type": fmt.Sprintf("f26%d", r.Intn(3))})
		} else {
			b.format(f, pick(r, "%{cx}\x01%{msg}\n", "%{cx}\x01%{msg:s}\n", "%{cx:v}%{shortfunc:.0s}\x01%{msg}\n"))
		}
		kind := pick(r, append([]string{"o26", "o26"}, sinkKinds...)...)
		if strings.HasPrefix(kind, "console") {
			if cons {
				kind = "memory"
			}
			cons = true
		}
		if kind == "vrec" { // it would format under its own mutex
			kind = "o26"
		}
		name := fmt.Sprintf("%so%d", pfx, i)
		names = append(names, name)
		if kind == "o26" {
			b.out(name, "o26", f)
			sinks = append(sinks, &Sink{kind: "o26", name: name})
			continue
		}
		// (a syslog datagram loses a trailing newline only)
		sinks = append(sinks, addSink(w, b, kind, name, f, "batch_num", pick(r, "1", "3", "500"), "queue_size", pick(r, "1", "10", "1000")))
	}
	// loggers: the first has all outputs, others some or none of their own
	x.names = []string{pfx}
	x.outsOf[pfx], x.lvlOf[pfx] = names, api.All
	b.logger(pfx, "all", names...)
	for i := 0; i < r.Intn(4); i++ {
		par := pick(r, x.names...)
		n := fmt.Sprintf("%s%s%d", par, pick(r, "/", "."), i)
		x.outsOf[n], x.lvlOf[n] = x.outsOf[par], x.lvlOf[par]
		l := pick(r, api.All, api.Debug, api.Warn)
		switch r.Intn(3) {
		case 0:
			own := names[:1+r.Intn(len(names))]
			x.outsOf[n], x.lvlOf[n] = own, l
			b.logger(n, levelNames[l], own...)
		case 1:
			x.lvlOf[n] = l
			b.logger(n, levelNames[l])
		}
		x.names = append(x.names, n)
	}
	if !loadSinks(w, b, sinks) {
		return
	}
	// variants which leave all this as it is
	for k := 0; k < 3; k++ {
		c := cloneCfg(&b.c)
		vf, vo := fmt.Sprintf("%svf", pfx), fmt.Sprintf("%svo", pfx)
		c.Formats = append(c.Formats, api.CfgFormat{"name": vf, "type": "text", "layout": fmt.Sprintf("%d %%{msg}\n", k)})
		c.Outputs = append(c.Outputs, api.CfgOutput{"name": vo, "type": "memory", "format": vf})
		c.Loggers = append(c.Loggers, api.CfgLogger{Name: pfx + "-v", Level: "info", OutputNames: []string{vo}})
		r.Shuffle(len(c.Loggers), func(i, j int) { c.Loggers[i], c.Loggers[j] = c.Loggers[j], c.Loggers[i] })
		x.cfgs = append(x.cfgs, c)
	}
	G := 1
	if r.Intn(2) == 0 || w.Job.Kind == "admin" {
		G = 2 + r.Intn(7)
	}
	per := 2 + r.Intn(10)
	stop := make(chan bool)
	var adm sync.WaitGroup
	if w.Job.Kind == "admin" {
		adm.Add(1)
		ar := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer adm.Done()
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				n := x.names[ar.Intn(len(x.names))]
				switch ar.Intn(4) {
				case 0:
					getLogger(n).SetLevel(x.lvlOf[n])
				case 1:
					getLogger(fmt.Sprintf("%s/a%d", n, ar.Intn(100)))
				case 2:
					mgr().SetConfig(x.cfgs[ar.Intn(len(x.cfgs))])
				case 3:
					if ops, _, err := mgr().GetLoggerOutputs(n); err == nil {
						getLogger(n).SetOutputs(ops)
					}
				}
				runtime.Gosched()
			}
		}()
	}
	par(G, func(g int) {
		for k := 0; k < per; k++ {
			x.top(G > 1)
		}
	})
	close(stop)
	adm.Wait()
	mgr().Close()
	bad := drainSyslog(d, sinks)
	for _, m := range bad {
		if !strings.Contains(m, "\x01") {
			w.Fail("foreign datagram", "%q", m)
		}
	}
	ok := true
	for _, s := range sinks {
		var text string
		if s.kind == "o26" {
			if v, found := outs26.Load(s.name); found {
				o := v.(*out26)
				o.mu.Lock()
				text = o.lines.String()
				o.mu.Unlock()
			}
		} else {
			text = s.content(d)
		}
		have := map[int]int{}
		for _, line := range strings.Split(text, "\n") {
			if line == "" {
				continue
			}
			cx, m, _ := strings.Cut(line, "\x01")
			var id, size int
			if _, err := fmt.Sscanf(m, "R0.%d.%d:", &id, &size); err != nil || id >= len(x.recs) {
				if w.Job.Kind != "panic" {
					w.Fail("a record is not whole", "output %v: line %q; loggers %v", s, clip(line, 300), x.names)
					ok = false
				}
				continue
			}
			have[id]++
			n := x.recs[id]
			if n.odd.Load() {
				continue
			}
			if k, _, good := parseRec(m); !good || k.seq != id {
				w.Fail("a record is not whole", "output %v: record %d (of %d bytes, nested %v) is %q; loggers %v", s, id, n.size, n.up != nil, clip(m, 300), x.names)
				ok = false
				break
			}
			if x.withCtx[id] && cx != fmt.Sprintf("c%d", id) || !x.withCtx[id] && strings.HasPrefix(cx, "c") {
				w.Fail("context of another record", "output %v: record %d shows the context value %q", s, id, cx)
				ok = false
				break
			}
		}
		for _, id := range x.want[s.name] {
			n := x.recs[id]
			c := have[id]
			delete(have, id)
			if c == 1 || c == 0 && (n.odd.Load() || x.closed.Load()) {
				continue
			}
			w.Fail("record lost or repeated", "output %v has record %d (nested %v, nests %v) %d times; loggers %v %v; %d goroutines", s, id, n.up != nil, n.acts.Load() > 0, c, x.names, x.lvlOf, G)
			ok = false
			break
		}
		if ok && len(have) > 0 {
			w.Fail("record at the wrong output", "output %v has records %v which were not for it; loggers %v %v", s, have, x.names, x.outsOf)
		}
		s.close()
		outs26.Delete(s.name)
	}
	key := ""
	if x.counts["nested records"] > 0 {
		key = fmt.Sprint(x.trace, len(x.recs))
	}
	for k, v := range x.counts {
		w.Count(k, v)
	}
	w.Eval(key)
	w.Sample("%d records, %d nested, %d goroutines, loggers %v, outputs %v, actions %v", len(x.recs), x.counts["nested records"], G, x.names, sinks, x.counts)
}
