package main

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C28",
		Rule: "custom outputs keep every event they are sent. The event is compared, in Send, again at random later moments from other goroutines, and at the end, with the logging call: name of the logger used, level, format, arguments (number, order, identity), context (every value, deadline), time between call and return, message. Some outputs format only later, in a goroutine of their own, with the text formatter they were given; the text must be that which a memory output with the same layout (time, caller, level, fields, message) wrote during the call. Random trees, inherited outputs, several outputs per logger, layouts with and without caller information, 1-8 goroutines, loads in between; built with the race detector, so that an event used by the library after it was handed over, or reused, is seen. Distinct by what the call looked like; non-trivial when the event was read after the call returned.",
		Assume: []string{
			"outputs do not change events",
			"an output which formats later reports the caller flag of its formatter",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 40
			if th {
				n, c = 200, 120
			}
			return jobs("keep", seed, n, c, nil)
		},
		Worker: c28,
		Min:    map[string]int{"evaluations": 50000, "events kept": 50000, "formatted later": 20000, "through inherited outputs": 10000, "with context": 10000, "with caller": 10000, "compared at a random moment": 10000, "loads": 500, "distinct": 10000},
	})
}

type call28 struct {
	id      int
	name    string
	lvl     api.Level
	format  string
	args    []any
	ctx     map[string]any
	dl      time.Time
	t0, t1  time.Time
	msg     string
	printed bool
}

// ev28 is an event as kept by an output.
type ev28 struct {
	e    *api.Event
	at   time.Time
	args int
}

type out28 struct {
	name  string
	mu    sync.Mutex
	f     api.Formatter
	later bool
	kept  []ev28
	ch    chan *api.Event
	done  chan bool
	lines []string
}

func (o *out28) Send(e *api.Event) {
	o.mu.Lock()
	o.kept = append(o.kept, ev28{e, time.Now(), len(e.Arguments)})
	o.mu.Unlock()
	if o.later {
		o.ch <- e
	}
}
func (o *out28) SetFormatter(f api.Formatter) {
	o.mu.Lock()
	o.f = f
	o.mu.Unlock()
}
func (o *out28) CallerInfoFlag() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.f.CallerInfoFlag()
}
func (o *out28) Close() {}
func (o *out28) loop(seed int64) {
	r := rand.New(rand.NewSource(seed))
	for e := range o.ch {
		jitter(r)
		o.mu.Lock()
		f := o.f
		o.mu.Unlock()
		s := string(f.Format(e))
		o.mu.Lock()
		o.lines = append(o.lines, s)
		o.mu.Unlock()
	}
	close(o.done)
}

type ptr28 struct{ N int }

func (c *call28) check(e *api.Event) string {
	switch {
	case e.Name != c.name:
		return fmt.Sprintf("Name is %q", e.Name)
	case e.Level != c.lvl:
		return fmt.Sprintf("Level is %v", e.Level)
	case e.Format != c.format:
		return fmt.Sprintf("Format is %q", e.Format)
	case len(e.Arguments) != len(c.args):
		return fmt.Sprintf("%d arguments %v", len(e.Arguments), e.Arguments)
	case e.Time.Before(c.t0) || !c.t1.IsZero() && e.Time.After(c.t1):
		return fmt.Sprintf("Time is %v, called at %v, returned at %v", e.Time, c.t0, c.t1)
	case e.Ctx == nil:
		return "Ctx is nil"
	}
	for i := range c.args {
		if !reflect.DeepEqual(e.Arguments[i], c.args[i]) {
			return fmt.Sprintf("argument %d is %v", i, e.Arguments[i])
		}
		if p, ok := c.args[i].(*ptr28); ok && e.Arguments[i].(*ptr28) != p {
			return fmt.Sprintf("argument %d is a copy", i)
		}
	}
	for _, k := range []string{"u", "v", "w"} {
		if got := e.Ctx.Value(k); !reflect.DeepEqual(got, c.ctx[k]) {
			return fmt.Sprintf("Ctx.Value(%q) is %v", k, got)
		}
	}
	if dl, ok := e.Ctx.Deadline(); ok == c.dl.IsZero() || ok && !dl.Equal(c.dl) {
		return fmt.Sprintf("Ctx.Deadline() is %v, %v", dl, ok)
	}
	if m := e.Message(); m != c.msg {
		return fmt.Sprintf("Message() is %q", m)
	}
	return ""
}

func c28(w *W) {
	r := w.Rng
	var omu sync.Mutex
	made := map[string]*out28{}
	mgr().RegisterOutputCreator("o28", func(cfg api.CfgOutput) (api.Output, error) {
		o := &out28{name: cfg.Name(), later: cfg["later"] == "true", ch: make(chan *api.Event, 100000), done: make(chan bool)}
		if o.later {
			go o.loop(int64(len(cfg.Name())))
		}
		omu.Lock()
		made[o.name] = o
		omu.Unlock()
		return o, nil
	})
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		runtime.GOMAXPROCS(pick(r, 1, 2, 4, 8))
		pfx := fmt.Sprintf("q%d", ci)
		b := (&Cfg{}).quietRoot(pfx)
		type pair struct {
			out, mem string // mem has the same layout
			caller   bool
		}
		var pairs []pair
		var on []string
		for i := 0; i < 1+r.Intn(3); i++ {
			lay := "%{u} %{v} " + pick(r, "", "%{level} ", "%{lvl:4s} ") + pick(r, "", "%{time} ", "%{time:15:04:05.000000000} ") + pick(r, "", "", "%{shortfile}:%{line} ", "%{longfunc} ", "%{shortfile} %{shortpkg} %{line} ", "%{longpkg} ") + "%{module} %{msg}"
			f := fmt.Sprintf("%sf%d", pfx, i)
			b.format(f, lay+"\x01\n")
			p := pair{out: fmt.Sprintf("%so%d", pfx, i), mem: fmt.Sprintf("%sm%d", pfx, i), caller: strings.Contains(lay, "pkg}") || strings.Contains(lay, "line") || strings.Contains(lay, "func")}
			b.out(p.out, "o28", f, "later", pick(r, "true", "true", "false"))
			b.out(p.mem, "memory", f)
			pairs = append(pairs, p)
			on = append(on, p.out, p.mem)
		}
		r.Shuffle(len(on), func(i, j int) { on[i], on[j] = on[j], on[i] })
		type lg struct {
			name string
			inh  bool
			lvl  api.Level
		}
		ls := []lg{{pfx, false, api.All}}
		b.logger(pfx, "all", on...)
		for i := 0; i < r.Intn(4); i++ {
			p := pick(r, ls...)
			n := lg{fmt.Sprintf("%s%s%d", p.name, pick(r, "/", "."), i), true, p.lvl}
			if r.Intn(4) == 0 {
				n.lvl = pick(r, api.Trace, api.Info, api.Error)
				b.logger(n.name, levelNames[n.lvl])
			}
			ls = append(ls, n)
		}
		if !b.load(w) {
			return
		}
		var hs []api.Logger
		for _, l := range ls {
			hs = append(hs, getLogger(l.name))
		}
		G := pick(r, 1, 1, 2, 4, 8)
		per := 10 + r.Intn(40)
		calls := make([][]*call28, G)
		seeds := make([]int64, G)
		for g := range seeds {
			seeds[g] = r.Int63()
		}
		par(G, func(g int) {
			r := rand.New(rand.NewSource(seeds[g]))
			for k := 0; k < per; k++ {
				jitter(r)
				li := r.Intn(len(ls))
				c := &call28{id: g*per + k, name: ls[li].name, ctx: map[string]any{}}
				for {
					c.lvl = pick(r, recLevels...)
					if rank(c.lvl) >= rank(ls[li].lvl) {
						break
					}
				}
				for j := 0; j < r.Intn(4); j++ {
					c.args = append(c.args, pick[any](r, 1, "s", 2.5, nil, []int{g, k}, &ptr28{k}, ptr28{k}, "%d %s", map[string]int{"a": k}, fmt.Errorf("e%d", k), true))
				}
				var wr api.Writer = hs[li]
				switch r.Intn(4) {
				case 0:
					var fs []api.Field
					for j := 0; j < 1+r.Intn(3); j++ {
						f := api.Field{Key: pick(r, "u", "v", "w"), Value: pick[any](r, g*1000+k, "x", 7.5, []string{"a"})}
						c.ctx[f.Key] = f.Value
						fs = append(fs, f)
					}
					wr = hs[li].WithFields(fs...)
				case 1:
					ctx := context.Background()
					if r.Intn(2) == 0 {
						c.dl = time.Now().Add(time.Hour)
						var cancel func()
						ctx, cancel = context.WithDeadline(ctx, c.dl)
						defer cancel()
					}
					c.ctx["w"] = g*1000 + k
					wr = hs[li].WithCtx(context.WithValue(ctx, "w", g*1000+k))
				}
				head := fmt.Sprintf("m%d.", c.id)
				c.printed = r.Intn(2) == 0
				tail := pick(r, "", "", "\n", " ", "%%", "\t\r\n", "\x00")
				if c.printed {
					c.format = head + strings.Repeat(" %v", len(c.args)) + tail
					c.msg = c.format
					if len(c.args) > 0 {
						c.msg = fmt.Sprintf(c.format, c.args...)
					}
				} else {
					c.args = append([]any{head}, c.args...)
					c.msg = fmt.Sprint(c.args...)
				}
				args := append([]any(nil), c.args...) // the slice is handed over
				c.t0 = time.Now()
				if c.printed {
					switch {
					case r.Intn(3) == 0:
						wr.Printf(c.lvl, c.format, args...)
					case c.lvl == api.Trace:
						wr.Tracef(c.format, args...)
					case c.lvl == api.Debug:
						wr.Debugf(c.format, args...)
					case c.lvl == api.Info:
						wr.Infof(c.format, args...)
					case c.lvl == api.Warn:
						wr.Warnf(c.format, args...)
					case c.lvl == api.Error:
						wr.Errorf(c.format, args...)
					default:
						wr.Criticalf(c.format, args...)
					}
				} else {
					switch c.lvl {
					case api.Trace:
						wr.Trace(args...)
					case api.Debug:
						wr.Debug(args...)
					case api.Info:
						wr.Info(args...)
					case api.Warn:
						wr.Warn(args...)
					case api.Error:
						wr.Error(args...)
					default:
						wr.Critical(args...)
					}
				}
				c.t1 = time.Now()
				calls[g] = append(calls[g], c)
				if r.Intn(3) == 0 { // one of the events kept so far, of this goroutine
					p := pick(r, pairs...)
					omu.Lock()
					o := made[p.out]
					omu.Unlock()
					o.mu.Lock()
					var e *api.Event
					if len(o.kept) > 0 {
						e = o.kept[r.Intn(len(o.kept))].e
					}
					o.mu.Unlock()
					if e != nil {
						for _, x := range calls[g] {
							if strings.HasPrefix(e.Message(), fmt.Sprintf("m%d.", x.id)) {
								if m := x.check(e); m != "" {
									w.Fail("not the event of the call", "%s, later; the call was %s", m, x)
								}
								w.Count("compared at a random moment", 1)
							}
						}
					}
				}
				if r.Intn(60) == 0 {
					w.Count("loads", 1)
					if err := mgr().SetConfig(&b.c); err != nil {
						w.Fail("valid configuration refused", "%v", err)
					}
				}
			}
		})
		byID := map[string]*call28{}
		for _, cs := range calls {
			for _, c := range cs {
				byID[fmt.Sprintf("m%d.", c.id)] = c
			}
		}
		idOf := func(s string) string { return id28.FindString(s) }
		for _, p := range pairs {
			o := made[p.out]
			if o.later {
				close(o.ch)
				<-o.done
			}
			seen := map[string]int{}
			for _, k := range o.kept {
				id := idOf(k.e.Message())
				c := byID[id]
				if c == nil {
					w.Fail("not the event of the call", "output %s has an event with message %q", o.name, k.e.Message())
					break
				}
				seen[id]++
				if m := c.check(k.e); m != "" {
					w.Fail("not the event of the call", "%s, at the end; the call was %s", m, c)
					break
				}
				if k.at.Before(c.t0) || k.at.After(c.t1) {
					w.Fail("not handed over during the call", "sent at %v; the call was %s", k.at, c)
					break
				}
				w.Count("events kept", 1)
				if p.caller {
					w.Count("with caller", 1)
				}
				if len(c.ctx) > 0 {
					w.Count("with context", 1)
				}
				if c.name != pfx {
					w.Count("through inherited outputs", 1)
				}
			}
			for id, c := range byID {
				if seen[id] != 1 {
					w.Fail("event lost or repeated", "output %s was sent %d events for the call %s", o.name, seen[id], c)
					break
				}
			}
			if o.later {
				ops, _, err := mgr().GetLoggerOutputs(pfx)
				if err != nil {
					w.Fail("outputs of a logger unavailable", "%v", err)
					return
				}
				want := map[string]string{}
				for i, n := range on {
					if n == p.mem {
						for _, l := range strings.SplitAfter(memText(ops[i]), "\x01\n") {
							want[idOf(l)] = l
						}
					}
				}
				for _, l := range o.lines {
					id := idOf(l)
					if want[id] != l {
						w.Fail("formatted later to another text", "output %s shows %q, the memory output with the same layout %q", o.name, l, want[id])
						break
					}
					w.Count("formatted later", 1)
				}
				if len(o.lines) != len(byID) {
					w.Fail("event lost or repeated", "output %s was sent %d events for %d calls", o.name, len(o.lines), len(byID))
				}
			}
			omu.Lock()
			delete(made, o.name)
			omu.Unlock()
		}
		for _, c := range byID {
			w.Eval(fmt.Sprint(c.name, c.lvl, c.format, len(c.args), c.ctx, G, w.Job.Seed))
		}
		w.Sample("%d goroutines, %d loggers, %d pairs of outputs, e.g. %s", G, len(ls), len(pairs), calls[0][0])
	}
}

var id28 = regexp.MustCompile(`\bm\d+\.`)

func (c *call28) String() string {
	return fmt.Sprintf("%s through %s: format %q, arguments %v, context %v", levelNames[c.lvl], c.name, c.format, c.args, c.ctx)
}
