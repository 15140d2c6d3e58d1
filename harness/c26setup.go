package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/xtfly/log4g/api"
)

// trap26 breaks calls to custom formatters, outputs and their creators.
type trap26 struct {
	mu   sync.Mutex
	at   map[string]bool
	left int
	exit bool
	hits int
}

func (t *trap26) hit(at string) {
	t.mu.Lock()
	on := t.at[at] && t.left > 0
	exit := t.exit
	if on {
		t.left--
		t.hits++
	}
	t.mu.Unlock()
	if on && exit {
		runtime.Goexit()
	}
	if on {
		panic("trap " + at)
	}
}

func (t *trap26) arm(left int, exit bool, at ...string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.at, t.left, t.exit, t.hits = map[string]bool{}, left, exit, 0
	for _, a := range at {
		t.at[a] = true
	}
}

func (t *trap26) disarm() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.left = 0
	return t.hits
}

type set26o struct {
	t  *trap26
	mu sync.Mutex
	f  api.Formatter
	b  strings.Builder
}

func (o *set26o) Send(e *api.Event) {
	o.t.hit("Send")
	if o.f == nil {
		o.b.WriteString("no format")
		return
	}
	s := o.f.Format(e)
	o.mu.Lock()
	defer o.mu.Unlock()
	o.b.Write(s)
}
func (o *set26o) SetFormatter(f api.Formatter) { o.t.hit("SetFormatter"); o.f = f }
func (o *set26o) CallerInfoFlag() int {
	o.t.hit("CallerInfoFlag")
	if o.f == nil {
		return 0
	}
	return o.f.CallerInfoFlag()
}
func (o *set26o) Close() { o.t.hit("Close") }
func (o *set26o) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

type set26f struct{ t *trap26 }

func (f *set26f) Format(e *api.Event) []byte { f.t.hit("Format"); return []byte(e.Message() + "\n") }
func (f *set26f) CallerInfoFlag() int        { f.t.hit("format's CallerInfoFlag"); return 0 }

var traps26 = []string{"output creator", "formatter creator", "SetFormatter", "CallerInfoFlag", "Close", "Send", "Format", "format's CallerInfoFlag"}

// endedIn calls f and tells whether f panicked or ended its goroutine
func endedIn(f func()) (ended bool) {
	done := make(chan bool)
	ended = true
	go func() {
		defer close(done)
		defer func() { recover() }()
		f()
		ended = false
	}()
	<-done
	return
}

func c26setup(w *W) {
	r := w.Rng
	quietStderr()
	t := &trap26{}
	mgr().RegisterOutputCreator("s26o", func(api.CfgOutput) (api.Output, error) {
		t.hit("output creator")
		return &set26o{t: t}, nil
	})
	mgr().RegisterFormatterCreator("s26f", func(api.CfgFormat) (api.Formatter, error) {
		t.hit("formatter creator")
		return &set26f{t}, nil
	})
	// the very first lookup breaks
	first := pick(r, traps26...)
	rootConf := func(out string) *Cfg {
		b := &Cfg{}
		b.c.Formats = append(b.c.Formats, api.CfgFormat{"name": out + "f", "type": "s26f"})
		b.out(out, "s26o", out+"f")
		return b.logger("root", "all", out)
	}
	w.Count("first lookups", 1)
	if err := mgr().SetConfig(&rootConf("first").c); err != nil {
		w.Fail("does not work on", "a configuration is refused: %v", err)
		return
	}
	t.arm(pick(r, 1, 1, 2), r.Intn(3) == 0, first)
	for ended, n := true, 0; ended && n < 5; n++ {
		ended = endedIn(func() { getLogger(pick(r, "root", "first")).Warn("x") })
	}
	t.disarm()
	if r.Intn(2) == 0 {
		if err := mgr().SetConfig(&rootConf("second").c); err != nil {
			w.Fail("does not work on", "a configuration is refused: %v", err)
			return
		}
	}
	getLogger("first/a").Warn("after it")
	if got := fmt.Sprint(outputOf(w, "root", 0)); !strings.HasSuffix(got, "after it\n") {
		w.Fail("does not work on", "the first lookup broke at %s: the output of the root logger has then %q, want %q at its end", first, got, "after it\n")
		return
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("u%d", ci)
		names := []string{pfx, pfx + "/a", pfx + "/b", pfx + "/a/c"}
		var hist []string
		broken := 0
		gen := 0
		// conf makes a configuration with new or the same definitions
		conf := func(g int) *Cfg {
			b := (&Cfg{}).quietRoot(fmt.Sprintf("%sg%d", pfx, g))
			fn := fmt.Sprintf("%sf%d", pfx, g)
			b.c.Formats = append(b.c.Formats, api.CfgFormat{"name": fn + "c", "type": "s26f"})
			b.format(fn+"t", "%{msg}\n")
			var outs []string
			for i, typ := range []string{"s26o", "memory", "s26o"} {
				outs = append(outs, fmt.Sprintf("%so%d.%d", pfx, g, i))
				b.out(outs[i], typ, fn+pick(r, "c", "t"))
			}
			b.logger(pfx, "all", outs[0])
			b.logger(pfx+"/a", "all", outs[1], outs[2])
			if r.Intn(2) == 0 {
				b.logger(pfx+"/b", "all", outs[2])
			}
			// set up when it is looked up
			late := fmt.Sprintf("%so%d.late", pfx, g)
			b.out(late, "s26o", fn+"c")
			b.logger(fmt.Sprintf("%s/late%d", pfx, g), "all", late)
			return b
		}
		var tried *Cfg // in the call that broke
		good := func() bool {
			gen++
			b := conf(gen)
			if tried != nil && r.Intn(2) == 0 {
				b = tried
				w.Count("broken configurations loaded again", 1)
			}
			if err := mgr().SetConfig(&b.c); err != nil {
				w.Fail("does not work on", "a configuration is refused: %v; history %v", err, hist)
				return false
			}
			src := func(n string) string { // the logger whose outputs it uses
				for _, l := range b.c.Loggers {
					if l.Name == n {
						return n
					}
				}
				if strings.HasPrefix(n, pfx+"/a") {
					return pfx + "/a"
				}
				return pfx
			}
			text := map[string]string{}
			each := func(f func(l, o, s string)) {
				for _, l := range b.c.Loggers {
					if l.Name == "root" || strings.Contains(l.Name, "late") {
						continue
					}
					for i, o := range l.OutputNames {
						s, _ := outputOf(w, l.Name, i).(fmt.Stringer)
						f(l.Name, o, s.String())
					}
				}
			}
			each(func(_, o, s string) { text[o] = s })
			for k := 0; k < 6; k++ {
				n := pick(r, append(names, fmt.Sprintf("%s/a/n%d.%d", pfx, gen, k), fmt.Sprintf("%s/n%d.%d", pfx, gen, k))...)
				msg := fmt.Sprintf("m%d.%d", gen, k)
				getLogger(n).Critical(msg)
				s := src(n)
				for _, l := range b.c.Loggers {
					if l.Name == s {
						for _, o := range l.OutputNames {
							text[o] += msg + "\n"
						}
					}
				}
			}
			each(func(l, o, s string) {
				if s != text[o] {
					w.Fail("does not work on", "after a broken call: output %s of %s has %q, want %q; history %v", o, l, s, text[o], hist)
				}
			})
			w.Count("records after broken calls", 6)
			return !w.Failed()
		}
		if !good() {
			return
		}
		for k := 0; k < 6 && !w.Failed(); k++ {
			exit := r.Intn(3) == 0
			at := []string{pick(r, traps26...)}
			if r.Intn(3) == 0 {
				at = append(at, pick(r, traps26...))
			}
			t.arm(pick(r, 1, 1, 2, 5, 1000), exit, at...)
			tried = nil
			for n := 1 + r.Intn(3); n > 0; n-- {
				what := pick(r, "new config", "new config", "same config", "refused config", "lookup", "record", "close", "outputs", "SetOutputs", "text")
				hist = append(hist, fmt.Sprintf("%s with traps at %v exit=%v", what, at, exit))
				ended := endedIn(func() {
					switch what {
					case "new config":
						tried = conf(gen + 1000 + k*10 + n)
						mgr().SetConfig(&tried.c)
					case "same config":
						mgr().SetConfig(&conf(gen).c)
					case "refused config":
						b := conf(gen + 5000)
						b.logger(pfx+"/x", "all", "nosuch")
						mgr().SetConfig(&b.c)
					case "lookup":
						getLogger(fmt.Sprintf("%s/a/l%d", pfx, r.Intn(100)))
						getLogger(fmt.Sprintf("%s/late%d", pfx, gen))
					case "record":
						getLogger(pick(r, names...)).Warn("x")
					case "close":
						mgr().Close()
					case "outputs":
						mgr().GetLoggerOutputs(pick(r, names...))
					case "SetOutputs":
						getLogger(pick(r, names[:2]...)).SetOutputs([]api.Output{&set26o{t: t, f: &set26f{t}}})
					case "text":
						tried = conf(gen + 2000 + k*10 + n)
						mgr().LoadConfig([]byte(jsonText(r, &tried.c)), "json")
					}
				})
				if ended {
					broken++
					w.Count("calls broken by set-up", 1)
					w.Count("broken: "+what, 1)
				}
			}
			t.disarm()
			// whatever it was, from now on all is well
			if !good() {
				return
			}
		}
		key := ""
		if broken > 0 {
			key = hash(fmt.Sprint(hist))
		}
		w.Eval(key)
		w.Sample("%v", hist)
	}
}
