package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
)

// cfgWorld runs configurations over a fixed pool of names and compares deliveries
// with what the accepted configuration says. It must run in a bubble.
type cfgWorld struct {
	w     *W
	r     *rand.Rand
	twins int // settings that look alike
	dir   string
	pfx   string
	cur   *api.Config // accepted last
	mem   map[string]api.Output
	memN  map[api.Output]int
	fileN map[string]int
	hist  []string
	seq   int
	names []string // of loggers
	held  map[string]api.Logger
	odd   map[string][]string // names of formats and outputs
	root  api.Level           // of the root logger when the configuration does not name it
}

func newCfgWorld(w *W, pfx string) *cfgWorld {
	x := &cfgWorld{w: w, r: w.Rng, dir: filepath.Join(w.Dir, pfx), pfx: pfx, mem: map[string]api.Output{}, memN: map[api.Output]int{}, fileN: map[string]int{}, held: map[string]api.Logger{}}
	x.odd = oddNames
	if w.Rng.Intn(3) == 0 {
		x.odd = moreNames
	}
	x.names = []string{"root"}
	p := pfx
	for _, n := range []string{"a", "a/b", "a/b/c", "a/b.d", "a.b", "a.b.c.d", "b", "b/c/d/e"} {
		x.names = append(x.names, p+n)
	}
	return x
}

// oddNames are names of formats and outputs, some of which are alike
var oddNames = map[string][]string{
	"f": {"fa", "fA", "Fa", "f a"},
	"o": {"oa", "oA", "Oa", "o a", "o/a.b", "ö"},
}

// moreNames are alike in other ways
var moreNames = map[string][]string{
	"f": {"fa", "fa ", "fa\t", "fa."},
	"o": {"oa", "oa ", "oa  ", "oa_", "o\u00e9", "oe\u0301"},
}

func (x *cfgWorld) note(f string, a ...any) { x.hist = append(x.hist, fmt.Sprintf(f, a...)) }

// gen makes a valid configuration, reusing parts of the current one.
func (x *cfgWorld) gen() *api.Config {
	r := x.r
	c := &api.Config{}
	old := x.cur
	if old == nil {
		old = &api.Config{}
	}
	keep := r.Intn(3) // 0: everything new
	var fs []string
	for i := 0; i < 4; i++ {
		if r.Intn(4) == 0 && !(i == 3 && len(fs) == 0) {
			continue
		}
		n := x.pfx + x.odd["f"][i]
		fs = append(fs, n)
		if o := old.GetCfgFormat(n); o != nil && r.Intn(3) < keep {
			c.Formats = append(c.Formats, api.CfgFormat(copyMap(o)))
			continue
		}
		c.Formats = append(c.Formats, api.CfgFormat{"type": "text", "name": n, "layout": fmt.Sprintf("V%d%s|%%{%s}|%%{module}|%%{msg}\n", r.Intn(3), n, pick(r, "lvl", "level", "level:-8s"))})
	}
	var os []string
	for i := 0; i < 6; i++ {
		if r.Intn(4) == 0 && !(i == 5 && len(os) == 0) {
			continue
		}
		n := x.pfx + x.odd["o"][i]
		if o := old.GetCfgOutput(n); o != nil && r.Intn(3) < keep && c.GetCfgFormat(o.FormatName()) != nil {
			m := api.CfgOutput(copyMap(o))
			if m["thresh"]+m["var"] != "" && r.Intn(3) > 0 || r.Intn(10) == 0 {
				twinLabels(r, m)
				x.twins++
			} else if keep == 1 && r.Intn(4) == 0 { // a small change
				switch r.Intn(4) {
				case 3:
					twinLabels(r, m)
				case 0:
					m["format"] = pick(r, fs...)
				case 1:
					delete(m, "threshold")
				case 2:
					if m["type"] == "vrec" {
						m["variant"] = fmt.Sprint(r.Intn(9))
						break
					}
					m["threshold"] = randCase(r, pick(r, "info", "warn", "error", "debug"))
				}
			}
			c.Outputs = append(c.Outputs, m)
			os = append(os, n)
			continue
		}
		os = append(os, n)
		o := api.CfgOutput{"name": n, "format": pick(r, fs...)}
		if r.Intn(2) == 0 {
			o["threshold"] = randCase(r, levelNames[pick(r, levels...)])
		}
		switch r.Intn(5) {
		case 0, 1:
			o["type"] = "vrec"
			o["variant"] = fmt.Sprint(r.Intn(3))
			delete(o, "threshold")
		case 2:
			o["type"] = "memory"
		default:
			o["type"] = pick(r, "size_rolling_file", "time_rolling_file")
			o["file"] = filepath.Join(x.dir, fmt.Sprintf("o%d.%d.%s", i, r.Intn(2), pick(r, "log", "txt")))
			o["pattern"] = "all" // never rolls (the files have real times)
			o["size"] = "64M"
			if r.Intn(2) == 0 {
				o["async"] = "true"
				o["batch_num"] = pick(r, "1", "3", "500")
			}
		}
		c.Outputs = append(c.Outputs, o)
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(c.Outputs), func(i, j int) { c.Outputs[i], c.Outputs[j] = c.Outputs[j], c.Outputs[i] })
	}
	// names of different files may coincide between outputs with changed type: no,
	// they contain the output's number
	for i, n := range x.names {
		if i > 0 && r.Intn(2) == 0 {
			continue
		}
		l := api.CfgLogger{Name: n}
		if o := old.GetCfgLogger(n); o != nil && r.Intn(3) < keep {
			l = *o
			l.OutputNames = nil
			for _, x := range o.OutputNames {
				if c.GetCfgOutput(x) != nil {
					l.OutputNames = append(l.OutputNames, x)
				}
			}
		} else {
			if r.Intn(4) > 0 {
				l.Level = randCase(r, levelNames[pick(r, levels...)])
			}
			for _, k := range r.Perm(len(os))[:r.Intn(min(4, len(os)+1))] {
				l.OutputNames = append(l.OutputNames, os[k])
			}
		}
		if i == 0 {
			if l.Level == "" {
				l.Level = randCase(r, levelNames[pick(r, recLevels...)])
			}
			if len(l.OutputNames) == 0 {
				l.OutputNames = []string{pick(r, os...)}
			}
		}
		c.Loggers = append(c.Loggers, l)
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(c.Loggers), func(i, j int) { c.Loggers[i], c.Loggers[j] = c.Loggers[j], c.Loggers[i] })
	}
	return c
}

// twinLabels gives an output a setting which is not used, or takes it away: what it
// is and what it was before look alike when printed.
func twinLabels(r *rand.Rand, m api.CfgOutput) {
	set, lbl := "threshold", "thresh"
	if m["type"] == "vrec" {
		set, lbl = "variant", "var"
	}
	if m[lbl] == "a" && m[set] != "" {
		f := pick(r, "a %s:%s", "a %s:%s", "a %s:%s", "a %s:%s", "a,%s=%s", "a\x00%s\x00%s", "a\",\"%s\":\"%s", "a&%s=%s", "a\n%s: %s", "a=%s=%s", "a%s%s", "a;%s=%s", "a, %s: %s", "a %s=%s", "a|%s|%s", "a\" \"%s\":\"%s")
		m[lbl] = fmt.Sprintf(f, set, m[set])
		delete(m, set)
		return
	}
	m[lbl] = "a"
	m[set] = pick(r, "error", "warn")
	if m["type"] == "vrec" {
		m[set] = fmt.Sprint(r.Intn(9))
	}
}

// next makes the next valid configuration to load: now and then one that leaves out the
// root logger, or all loggers, or everything.
func (x *cfgWorld) next() *api.Config {
	c := x.gen()
	switch x.r.Intn(14) {
	case 0, 1:
		var ls []api.CfgLogger
		for _, l := range c.Loggers {
			if l.Name != "root" {
				ls = append(ls, l)
			}
		}
		c.Loggers = ls
	case 2:
		c.Loggers = nil
	case 3:
		c = &api.Config{}
	}
	if c.GetCfgLogger("root") == nil {
		x.w.Count("configurations without root", 1)
	}
	return c
}

func copyMap(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func parseLevel(s string) (api.Level, bool) {
	for l, n := range levelNames {
		if strings.EqualFold(n, s) {
			return l, true
		}
	}
	return 0, false
}

func (x *cfgWorld) model() *treeModel {
	m := &treeModel{lvl: map[string]api.Level{}, outs: map[string][]string{}}
	for _, l := range x.cur.Loggers {
		if v, ok := parseLevel(l.Level); ok {
			m.lvl[l.Name] = v
		}
		if len(l.OutputNames) > 0 {
			m.outs[l.Name] = l.OutputNames
		}
	}
	if x.cur.GetCfgLogger("root") == nil {
		// what it does then is not specified, but must not change by itself
		m.lvl["root"] = x.root
	}
	return m
}

// used says whether some logger names an output.
func used(c *api.Config, out string) bool {
	for _, l := range c.Loggers {
		for _, o := range l.OutputNames {
			if o == out {
				return true
			}
		}
	}
	return false
}

func sameDef(a, b *api.Config, out string) bool {
	x, y := a.GetCfgOutput(out), b.GetCfgOutput(out)
	if x == nil || y == nil || !reflect.DeepEqual(map[string]string(x), map[string]string(y)) {
		return false
	}
	return reflect.DeepEqual(map[string]string(a.GetCfgFormat(x.FormatName())), map[string]string(b.GetCfgFormat(x.FormatName())))
}

func (x *cfgWorld) render(out string, logger string, lvl api.Level, msg string) string {
	f := x.cur.GetCfgFormat(x.cur.GetCfgOutput(out).FormatName())
	s := strings.ReplaceAll(f["layout"], "%{module}", logger)
	s = strings.ReplaceAll(s, "%{lvl}", shortNames[lvl])
	s = strings.ReplaceAll(s, "%{level}", levelNames[lvl])
	s = strings.ReplaceAll(s, "%{level:-8s}", fmt.Sprintf("%-8s", levelNames[lvl]))
	return strings.ReplaceAll(s, "%{msg}", msg)
}

func (x *cfgWorld) logger(n string) api.Logger {
	if l := x.held[n]; l != nil {
		return l
	}
	l := getLogger(n)
	if x.r.Intn(3) > 0 {
		x.held[n] = l
	}
	return l
}

// ready notes the live memory outputs and the level of an unconfigured root.
func (x *cfgWorld) ready() {
	x.root = getLogger("root").Level()
	for _, l := range x.cur.Loggers {
		ops, _, err := mgr().GetLoggerOutputs(l.Name)
		if err != nil || len(ops) != len(l.OutputNames) {
			x.w.Fail("outputs of a logger unavailable", "GetLoggerOutputs(%q) = %d outputs, %v; history %v", l.Name, len(ops), err, x.hist)
			return
		}
		for i, n := range l.OutputNames {
			if x.cur.GetCfgOutput(n).Type() == "memory" {
				x.mem[n] = ops[i]
			}
		}
	}
}

// flush lets asynchronous outputs write.
func (x *cfgWorld) flush() {
	settle()
	time.Sleep(11 * time.Second)
	settle()
}

// drain returns what each output received since the last time.
func (x *cfgWorld) drain() map[string]string {
	got := map[string]string{}
	for i := 0; i < 6; i++ {
		n := x.pfx + x.odd["o"][i]
		for _, rec := range recsOf(n) {
			for _, e := range rec.take() {
				got[n] += e.Text
			}
		}
		if o := x.mem[n]; o != nil {
			s := memText(o)
			if k := x.memN[o]; k <= len(s) {
				got[n] += s[k:]
			} else {
				got[n] += "<content vanished>" + s
			}
			x.memN[o] = len(s)
		}
	}
	for name, text := range dirFiles(x.dir) {
		if k := x.fileN[name]; k <= len(text) {
			if text[k:] != "" {
				got["file "+name] += text[k:]
			}
		} else {
			got["file "+name] += "<content vanished>" + text
		}
		x.fileN[name] = len(text)
	}
	return got
}

// where names the place in which the records of an output appear.
func (x *cfgWorld) where(out string) string {
	o := x.cur.GetCfgOutput(out)
	if f := o["file"]; f != "" {
		return "file " + filepath.Base(f)
	}
	return out
}

// burst logs n records and adds what should arrive to want.
func (x *cfgWorld) burst(n int, want map[string]string) {
	m := x.model()
	for k := 0; k < n; k++ {
		name := pick(x.r, x.names...)
		if x.r.Intn(6) == 0 { // a new descendant
			name += pick(x.r, "/", ".") + fmt.Sprintf("n%d", x.seq)
		}
		lvl := pick(x.r, recLevels...)
		c := pick(x.r, callsAt(lvl)...)
		x.seq++
		msg := fmt.Sprintf("m%d", x.seq)
		lg := x.logger(name)
		on := rank(lvl) >= rank(m.level(name))
		if g := lg.LevelEnabled(lvl); g != on {
			x.w.Fail("wrong level", "%s enabled at %s: %v, should be %v; config %+v; history %v", name, levelNames[lvl], g, on, x.cur, x.hist)
		}
		c.f(lg, msg)
		if !on {
			continue
		}
		_, outs := m.outputs(name)
		for _, o := range outs {
			if t, ok := parseLevel(x.cur.GetCfgOutput(o)["threshold"]); ok && rank(lvl) < rank(t) {
				continue
			}
			want[x.where(o)] += x.render(o, name, lvl, msg)
		}
	}
}

// compare fails when the deliveries differ.
func (x *cfgWorld) compare(want map[string]string, when string) bool {
	got := x.drain()
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] != want[k] {
			x.w.Fail("wrong deliveries", "%s: %s received %q, should be %q; configuration %+v; history %v", when, k, clip(got[k], 600), clip(want[k], 600), *x.cur, x.hist)
			return false
		}
	}
	return true
}

func cfgString(c *api.Config) string {
	var s []string
	for _, f := range c.Formats {
		s = append(s, fmt.Sprintf("%v", map[string]string(f)))
	}
	for _, f := range c.Outputs {
		s = append(s, fmt.Sprintf("%v", map[string]string(f)))
	}
	for _, f := range c.Loggers {
		s = append(s, fmt.Sprintf("%v", f))
	}
	return strings.Join(s, " ")
}

type apiOutput = api.Output
