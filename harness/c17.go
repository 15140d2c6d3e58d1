package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C17",
		Rule: "a case is a sequence of valid configurations over a small pool of names (formats, outputs of several types and loggers kept, changed, removed and brought back), each followed by records (some loads after levels and outputs were set by hand) through loggers held since earlier, looked up again and newly created, at every level. They are loaded as structures, or by one file that always has the same length and time. All deliveries (output, text) are compared with the model of the configuration accepted last; records logged before a load and still waiting in an asynchronous output must be written; an output whose definition and format are unchanged must stay the same object, not closed, with its content. Distinct by sequence; non-trivial when a name was redefined.",
		Assume: []string{
			"virtual time; the root logger always has a level and outputs; a record logged while a load runs is not judged",
			"an output which no logger of one of two configurations uses may be recreated",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 64, 80
			if th {
				n, c = 400, 400
			}
			return jobs("seq", seed, n, c, map[string]int{"bubble": 1})
		},
		Worker: c17,
		Min:    map[string]int{"evaluations": 800, "loads": 4000, "outputs redefined": 3000, "formats redefined": 2000, "loggers no longer mentioned": 2000, "outputs unchanged": 1000, "records": 50000, "records waiting during a load": 2000, "configurations without root": 300, "files of the same length and time": 2000, "files of more than 64 KiB": 50, "settings which look alike": 400, "levels and outputs set before a load": 5000, "distinct": 800},
	})
}

// load17 loads a configuration as a structure or, over and over, by one file of the
// same length and time.
func (x *cfgWorld) load17(c *api.Config) error {
	r := x.r
	if r.Intn(2) == 0 {
		return mgr().SetConfig(c)
	}
	text, p := jsonText(r, c), filepath.Join(x.w.Dir, "c17.json")
	if r.Intn(2) == 0 {
		text, p = yamlText(r, c), filepath.Join(x.w.Dir, "c17.yml")
	}
	text += "\n"
	if r.Intn(100) == 0 {
		text = padText(r, text)
		x.w.Count("files of more than 64 KiB", 1)
	} else if len(text) < 8192 {
		text += strings.Repeat("\n", 8192-len(text))
		x.w.Count("files of the same length and time", 1)
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		fatal("%v", err)
	}
	t := time.Unix(1700000000, 0)
	os.Chtimes(p, t, t)
	x.note("(by file)")
	return mgr().LoadConfigFile(p)
}

// stray17 is an output set by the program, not by a configuration.
type stray17 struct{ n atomic.Int64 }

func (s *stray17) Send(*api.Event)            { s.n.Add(1) }
func (s *stray17) SetFormatter(api.Formatter) {}
func (s *stray17) CallerInfoFlag() int        { return 0 }
func (s *stray17) Close()                     {}

// meddle sets levels and outputs of loggers which the configuration in force or the next
// one mentions; the load that follows makes up for it.
func (x *cfgWorld) meddle(next *api.Config) (strays []*stray17) {
	r := x.r
	for _, c := range []*api.Config{x.cur, next} {
		if c == nil || r.Intn(3) > 0 {
			continue
		}
		for _, l := range c.Loggers {
			if l.Name == "" || r.Intn(3) > 0 {
				continue
			}
			lg := getLogger(l.Name)
			if r.Intn(2) == 0 {
				lvl := pick(r, append([]api.Level{api.Uninitialized, api.All, api.Off}, recLevels...)...)
				lg.SetLevel(lvl)
				x.note("%s.SetLevel(%v)", l.Name, lvl)
			}
			if r.Intn(4) == 0 {
				var ops []api.Output
				if r.Intn(3) > 0 {
					s := &stray17{}
					strays = append(strays, s)
					ops = append(ops, s)
				}
				lg.SetOutputs(ops)
				x.note("%s.SetOutputs(%d)", l.Name, len(ops))
			}
			x.w.Count("levels and outputs set before a load", 1)
		}
	}
	return
}

func c17(w *W) {
	useRec()
	r := w.Rng
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		x := newCfgWorld(w, fmt.Sprintf("w%d", ci))
		loads := 2 + r.Intn(8)
		pending := map[string]string{} // logged before a load
		redefined := 0
		for l := 0; l < loads && !w.Failed(); l++ {
			c := x.next()
			type live struct {
				recs int
				out  any
			}
			was := map[string]live{}
			if x.cur != nil {
				for _, o := range c.Outputs {
					n := o.Name()
					if sameDef(x.cur, c, n) && used(x.cur, n) && used(c, n) {
						was[n] = live{len(recsOf(n)), x.mem[n]}
						w.Count("outputs unchanged", 1)
					} else if x.cur.GetCfgOutput(n) != nil {
						w.Count("outputs redefined", 1)
						redefined++
					}
				}
				for _, f := range c.Formats {
					if o := x.cur.GetCfgFormat(f.Name()); o != nil && o["layout"] != f["layout"] {
						w.Count("formats redefined", 1)
						redefined++
					}
				}
				for _, lg := range x.cur.Loggers {
					if c.GetCfgLogger(lg.Name) == nil {
						w.Count("loggers no longer mentioned", 1)
					}
				}
				if r.Intn(2) == 0 {
					n := 1 + r.Intn(20)
					x.burst(n, pending)
					w.Count("records waiting during a load", n)
				}
			}
			strays := x.meddle(c)
			x.note("load %s", cfgString(c))
			if err := x.load17(c); err != nil {
				w.Fail("valid configuration refused", "%v; history %v", err, x.hist)
				return
			}
			w.Count("loads", 1)
			// what was logged before belongs to the outputs of then
			prevMem := map[string]string{}
			for n, o := range x.mem {
				s := memText(o)
				prevMem[n] = s[min(len(s), x.memN[o]):]
				x.memN[o] = len(s)
			}
			x.cur = c
			oldMem := x.mem
			x.mem = map[string]apiOutput{}
			x.ready()
			for n, was := range was {
				if k := len(recsOf(n)); k != was.recs {
					w.Fail("unchanged output recreated", "output %s; history %v", n, x.hist)
				}
				if rec := recOf(n); c.GetCfgOutput(n).Type() == "vrec" && (rec == nil || rec.closed > 0) {
					w.Fail("unchanged output closed", "output %s; history %v", n, x.hist)
				}
				if o, ok := oldMem[n]; c.GetCfgOutput(n).Type() == "memory" && ok && x.mem[n] != o {
					w.Fail("unchanged output recreated", "memory output %s; history %v", n, x.hist)
				}
			}
			want := pending
			for n, s := range prevMem {
				if s != "" {
					if want[n] != s {
						w.Fail("wrong deliveries", "memory output %s received %q before a load, should be %q; history %v", n, s, want[n], x.hist)
					}
					delete(want, n)
				}
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				n := 10 + r.Intn(25)
				x.burst(n, want)
				w.Count("records", n)
				x.flush()
				if !x.compare(want, "after a load") {
					return
				}
				want = map[string]string{}
				if r.Intn(3) == 0 { // the same configuration again
					strays = append(strays, x.meddle(c)...)
					if err := x.load17(c); err != nil {
						w.Fail("valid configuration refused", "%v; history %v", err, x.hist)
						return
					}
					x.note("again")
				}
			}
			pending = map[string]string{}
			for _, s := range strays {
				if s.n.Load() > 0 {
					w.Fail("former output used", "an output set before a load received a record after it; history %v", x.hist)
				}
			}
		}
		key := ""
		if redefined > 0 {
			key = hash(strings.Join(x.hist, "\n"))
		}
		w.Count("settings which look alike", x.twins)
		w.Eval(key)
		w.Sample("%s", strings.Join(x.hist, " THEN "))
	}
}
