package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID: "C31",
		Rule: "a case loads a configuration in which layouts, settings of outputs, names and levels are odd - empty, misspelt, negative, enormous, malformed, control characters, broken UTF-8, impossible file names - besides a logger whose own definitions are in order, and calls the whole logging API with odd values (levels and skips out of range, empty and equal field keys, nil values, malformed format strings) on every logger, in half of the jobs over months of virtual time so that files roll. " +
			"Every call must return without panic, accepted or refused; the logger in order, and outputs in order which share a logger with odd ones, must have exactly their records, and a following ordinary configuration must work. Non-trivial when an odd configuration was accepted; distinct by configuration.",
		Assume: []string{
			"what an odd output itself does with its records is unspecified, and so are the outputs of a logger naming an output that cannot be created",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 16, 400
			if th {
				n, c = 40, 2000
			}
			js := jobs("odd", seed, n, c, nil)
			return append(js, jobs("later", seed, n, c, map[string]int{"bubble": 1})...)
		},
		Worker:  c31,
		Timeout: 90 * time.Second,
		Min:     map[string]int{"evaluations": 3000, "accepted": 2000, "odd outputs used": 3000, "calls": 100000, "records of outputs in order": 20000, "loaded from text": 1000, "broken text refused": 500, "distinct": 2000},
	})
}

var oddWords = []string{"", " ", "-1", "0", "1", "2", "00", "-0", "+5", "1e3", "0x10", "1.5", "99999999999999999999999", "-9223372036854775808", "9223372036854775807", "2147483648", "abc", "NaN", "true", "TRUE", "True", "yes", "false", "nil", "null", "\x00", "\n", "\xff\xfe", "é", "日本語", "%", "%s%d%n", "%!", "{", "}", "K", "M", "G", "1K", "-1K", "0M", "K1", "1KB", "1 K", "1g", "999999K", "0777", "777", "0o644", "8", "0999", "-0755", "077777777777777", "zip", "gzip", "GZIP", "tar", "bz2", "prefix", "postfix", "Prefix", "all", "off", "warn", "WARN ", "bogus", "\t"}
var oddVerbs = []string{"msg", "module", "level", "lvl", "pid", "program", "time", "line", "longfile", "shortfile", "longpkg", "shortpkg", "longfunc", "shortfunc", "xxx", "k", "", "MSG", "msg ", "é", "a.b", "__caller_info", "id", "callpath", "extend"}
var oddSpecs = []string{"", ":", ":s", ":d", ":05d", ":-20s", ":x", ":v", ":+v", ":#v", ":q", ":*d", ":[1]d", ":[9]s", ":%", ":%s", ":99999d", ":.3s", ":T", ":p", ":c", ":e", ":!", ":s%d", ":2006-01-02", ":15:04:05.000", ":{}", ":\x00", ":日", ":v v v"}

func oddLayout(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(6); n >= 0; n-- {
		switch r.Intn(8) {
		case 0:
			b.WriteString(pick(r, "%{", "}", "%", "%%", "{msg}", "%{msg", "%{msg:", "%{}", "%{:}", "%{:d}", "%{{msg}}", "%{%{msg}}", "\\", "\x00", "\xff", "%[1]s", "%v", "日本", "\n", "$1", "${msg}", "%{msg}%"))
		case 1:
			b.WriteString(pick(r, oddWords...))
		default:
			b.WriteString("%{" + pick(r, oddVerbs...) + pick(r, oddSpecs...) + "}")
		}
	}
	if r.Intn(3) > 0 {
		b.WriteString("\n")
	}
	return b.String()
}

// oddFile gives a file name inside dir.
func oddFile(r *rand.Rand, dir string) string {
	long := strings.Repeat("n", 300)
	return filepath.Join(dir, "x") + pick(r, "", "/", "//", "/.", "/a.log", "/a//b", "/a/b/c/d/e.log", "/*", "/?[", "/[a", "/%s", "/a\nb", "/a\x00b", "/\xff\xfe", "/日本", "/ ", "/"+long, "/"+long[:250], "/.hidden", "/file/a.log", "/-rf", "/a.", "/...", "/a.1", "/1.a", "/1", "/{x}", "/a.log.gz", "/link", "/loop", "/isdir", "/fifo")
}

type oddStringer struct{ k int }

func (o oddStringer) String() string { return fmt.Sprint("odd", o.k) }

func c31(w *W) {
	r := w.Rng
	quietStderr()
	later := w.Job.Kind == "later"
	if later {
		time.Sleep(time.Duration(r.Int63n(int64(10 * 365 * 24 * time.Hour))))
	} else {
		startSyslogd(filepath.Join(w.Dir, "sl"))
	}
	useRec()
	devnull, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		fatal("%v", err)
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		withStdout(devnull, func() { c31case(w, r, ci, later) })
	}
}

func c31case(w *W, r *rand.Rand, ci int, later bool) {
	pfx := fmt.Sprintf("z%d", ci)
	dir := filepath.Join(w.Dir, pfx)
	os.MkdirAll(filepath.Join(dir, "x", "isdir"), 0755)
	os.WriteFile(filepath.Join(dir, "x", "file"), []byte("f"), 0644)
	os.Symlink("nowhere", filepath.Join(dir, "x", "link"))
	os.Symlink("loop", filepath.Join(dir, "x", "loop"))
	defer os.RemoveAll(dir)
	cfg := &api.Config{}
	cfg.Formats = append(cfg.Formats, api.CfgFormat{"name": pfx + "f", "type": "text", "layout": "%{level} %{msg}\n"}, api.CfgFormat{"name": pfx + "rf", "type": "text", "layout": "%{msg}\n"})
	cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"name": pfx + "good", "type": "memory", "format": pfx + "f"},
		api.CfgOutput{"name": pfx + "goodf", "type": "size_rolling_file", "format": pfx + "f", "file": filepath.Join(dir, "good", "rf.log"), "size": "1G"},
		api.CfgOutput{"name": pfx + "shared", "type": "memory", "format": pfx + "f"},
		api.CfgOutput{"name": pfx + "rootm", "type": "memory", "format": pfx + "rf"})
	cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: pfx + "good", Level: "debug", OutputNames: []string{pfx + "good", pfx + "goodf"}}, api.CfgLogger{Name: "root", Level: "off", OutputNames: []string{pfx + "rootm"}})
	formats := []string{pfx + "f"}
	for n := 1 + r.Intn(3); n > 0; n-- {
		f := api.CfgFormat{"name": fmt.Sprintf("%sodd%d%s", pfx, n, pick(r, append(oddWords, "", "", "", "", "", "", "")...)), "type": pick(r, "text", "text", "text", "text", "text", "text", "text", "json", "", "TEXT"), "layout": oddLayout(r)}
		if r.Intn(20) == 0 {
			delete(f, "layout")
		}
		if r.Intn(10) == 0 {
			f[pick(r, oddWords...)+"x"] = pick(r, oddWords...)
		}
		formats = append(formats, f["name"])
		cfg.Formats = append(cfg.Formats, f)
	}
	settings := []string{"async", "queue_size", "batch_num", "threshold", "size", "backups", "archive", "name_mode", "pattern", "file_perm", "dir_perm", "back_perm", "prefix", "unknown"}
	var outs []string
	ticking := false // some output ticks every few seconds
	for n := 1 + r.Intn(4); n > 0; n-- {
		typ := pick(r, "memory", "console", "size_rolling_file", "size_rolling_file", "size_rolling_file", "time_rolling_file", "time_rolling_file", "time_rolling_file", "syslog", "vrec", "vrec", "file", "")
		if later && typ == "syslog" {
			typ = "time_rolling_file"
		}
		if r.Intn(4) > 0 && (typ == "file" || typ == "") {
			typ = "memory"
		}
		o := api.CfgOutput{"name": fmt.Sprintf("%sout%d%s", pfx, n, pick(r, append(oddWords, "", "", "", "", "", "")...)), "type": typ, "format": pick(r, formats...)}
		for _, s := range settings {
			if r.Intn(3) == 0 {
				o[s] = pick(r, oddWords...)
			}
		}
		switch r.Intn(3) {
		case 0:
			o["async"] = "true"
		case 1:
			delete(o, "async")
		}
		if strings.HasSuffix(typ, "file") {
			o["file"] = oddFile(r, dir)
			if r.Intn(3) == 0 {
				o["file"] = filepath.Join(dir, "y", pick(r, "a.log", "a", "a.b.c"))
			}
			if r.Intn(30) == 0 {
				o["file"] = "" // the current directory is the scratch directory
			}
			if r.Intn(3) == 0 {
				o["size"] = pick(r, "1", "10", "100")
			}
			if r.Intn(3) == 0 {
				o["pattern"] = pick(r, "2006", "2006-01", "2006/01/02", "02", "Jan", "Monday", "x", "2006-01-02 15:04:05", "%Y", "2006.01.02.gz", "MST", "-0700", "15:04", "é2006")
			}
		}
		if filepath.Base(o["file"]) == "fifo" { // a pipe without reader would block the open
			o["file"] += "x"
		}
		ticking = ticking || o["async"] != ""
		outs = append(outs, o["name"])
		cfg.Outputs = append(cfg.Outputs, o)
	}
	type lgr struct {
		name   string
		shared bool // has the shared output
		outs   []string
	}
	ls := []lgr{{name: pfx + "good"}, {name: pfx + "good/" + pick(r, "a", "/", "", ".", "..", "\x00")}}
	for n := 1 + r.Intn(4); n > 0; n-- {
		name := pfx + "l" + fmt.Sprint(n) + pick(r, append(oddWords, "", "", "", "/", "//", ".", "a/b.c", strings.Repeat("/", 50), strings.Repeat("a.", 60))...)
		l := lgr{name: name}
		var on []string
		for k := r.Intn(3); k >= 0; k-- {
			on = append(on, pick(r, outs...))
		}
		uniq := map[string]bool{}
		for _, o := range on {
			if !uniq[o] {
				uniq[o] = true
				l.outs = append(l.outs, o)
			}
		}
		if r.Intn(2) == 0 {
			l.shared = true
			i := r.Intn(len(l.outs) + 1)
			l.outs = append(l.outs[:i:i], append([]string{pfx + "shared"}, l.outs[i:]...)...)
		}
		lvl := pick(r, append(oddWords, "all", "all", "all", "info", "error")...)
		if l.shared {
			lvl = "all"
		}
		ls = append(ls, l)
		cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: name, Level: lvl, OutputNames: l.outs})
	}
	desc := cfgString(cfg)
	doing := ""
	fail := func(sig, f string, a ...any) { w.Fail(sig, "case %d: %s; %s", ci, fmt.Sprintf(f, a...), desc) }
	guard := func(what string, f func()) (ok bool) {
		doing = what
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				fail("panic", "%s panicked: %v\n%s", what, p, clip(st, 2500))
			}
		}()
		w.Count("calls", 1)
		f()
		return true
	}
	var lerr error
	text, ext := "", ""
	switch r.Intn(6) {
	case 0:
		text, ext = jsonText(r, cfg), "json"
	case 1:
		text, ext = yamlText(r, cfg), pick(r, "yaml", "yml")
	}
	if ext != "" {
		if !guard("LoadConfig "+ext, func() { lerr = mgr().LoadConfig([]byte(text), ext) }) {
			return
		}
		w.Count("loaded from text", 1)
	} else if !guard("SetConfig", func() { lerr = mgr().SetConfig(cfg) }) {
		return
	}
	if lerr != nil {
		if ext == "" {
			fail("refused", "SetConfig refused a consistent configuration: %v", lerr)
			return
		}
		w.Count("refused", 1)
		// nothing of it is in force; the next case goes on
		w.Eval("")
		return
	}
	w.Count("accepted", 1)
	var wantGood, wantShared strings.Builder
	made := map[string]bool{}
	for i, l := range ls {
		if i < 2 {
			continue
		}
		guard("GetLoggerOutputs", func() {
			ops, _, err := mgr().GetLoggerOutputs(l.name)
			made[l.name] = err == nil && len(ops) == len(l.outs)
			if made[l.name] {
				w.Count("odd outputs used", len(ops))
			}
		})
	}
	args := func(k int) []any {
		return pick(r, nil, []any{nil}, []any{k}, []any{"a", 1, nil}, []any{errors.New("e")}, []any{oddStringer{k}}, []any{math.NaN(), []byte("x"), struct{}{}}, []any{func() {}}, []any{make(chan int)}, []any{map[string]any{"a": nil}}, []any{(*int)(nil)}, []any{[]string(nil)}, []any{(*oddStringer)(nil)})
	}
	nrec := 4 + r.Intn(12)
	for k := 0; k < nrec; k++ {
		if later {
			d := pick(r, 0, time.Second, time.Minute, 26*time.Hour, 40*24*time.Hour, 400*24*time.Hour)
			if ticking { // millions of ticks would take minutes
				d = min(d, 4*time.Hour)
			}
			if time.Now().Year() > 2200 { // nanoseconds end in 2262
				d = min(d, 26*time.Hour)
			}
			time.Sleep(d)
		}
		l := pick(r, ls...)
		var lg api.Logger
		if !guard(fmt.Sprintf("GetLogger(%q)", l.name), func() { lg = getLogger(l.name) }) {
			return
		}
		if lg == nil {
			fail("no logger", "GetLogger(%q) is nil", l.name)
			return
		}
		plain := false
		good := strings.HasPrefix(l.name, pfx+"good")
		var wr api.Writer = lg
		var fields []api.Field
		switch r.Intn(5) {
		case 0:
			for n := r.Intn(4); n > 0; n-- {
				v := any(nil)
				if a := args(k); len(a) > 0 {
					v = a[0]
				}
				fields = append(fields, api.Field{Key: pick(r, append(oddVerbs, oddWords...)...), Value: v})
			}
			guard("WithFields", func() { wr = lg.WithFields(fields...) })
		case 1:
			guard("WithCtx", func() {
				wr = lg.WithCtx(pick[context.Context](r, context.Background(), context.TODO(), context.WithValue(context.Background(), "k", nil)))
			})
		default:
			plain = true
		}
		_ = plain
		if good || l.shared && made[l.name] || r.Intn(2) == 0 { // a record that can be predicted
			c := pick(r, logCalls...)
			msg := fmt.Sprintf("m%d", k)
			if !guard(fmt.Sprintf("%s on %q", c.name, l.name), func() { c.f(wr, msg) }) {
				return
			}
			line := fmt.Sprintf("%s %s\n", levelNames[c.lvl], msg)
			if good && rank(c.lvl) >= rank(api.Debug) {
				wantGood.WriteString(line)
				w.Count("records of outputs in order", 1)
			}
			if l.shared && made[l.name] {
				wantShared.WriteString(line)
				w.Count("records of outputs in order", 1)
			}
		} else {
			a, f := args(k), pick(r, "", "%", "%d", "%s %s %s", "%!", "%[9]d", "%*d", "%v%", "\x00", "%+v %#v", "é%q", "%w")
			lvl := pick(r, api.Level(-1), api.Level(0), api.Level(9), api.Level(100), api.Level(math.MaxInt64), api.Level(math.MinInt64), api.Off, api.All, api.Info)
			if !guard("odd record on "+l.name, func() {
				switch r.Intn(6) {
				case 0:
					wr.Printf(lvl, f, a...)
				case 1:
					wr.Info(a...)
				case 2:
					wr.Critical(a...)
				case 3:
					wr.Errorf(f, a...)
				case 4:
					wr.Warn()
				case 5:
					wr.Criticalf(f, a...)
				}
			}) {
				return
			}
		}
		// the rest of the API, on a logger of its own
		o := pfx + "own" + pick(r, append(oddWords, "/", "..")...)
		if !guard("odd calls on "+o, func() {
			x := getLogger(o)
			switch r.Intn(7) {
			case 0:
				x.SetLevel(pick(r, api.Level(-1), api.Level(99), api.Uninitialized, api.Level(math.MinInt64)))
				_ = x.Level().String() + x.Level().ShortStr()
			case 1:
				x.LevelEnabled(api.Level(r.Intn(40) - 20))
				x.InfoEnabled()
			case 2:
				x.SetCallerSkip(pick(r, -1000, -3, -1, 0, 1, 30, 100000, math.MaxInt32))
			case 3:
				x.SetOutputs(nil)
			case 4:
				x.SetOutputs([]api.Output{})
			case 5:
				if op := outputOf(w, pfx+"good", 0); op != nil {
					x.SetOutputs([]api.Output{op})
					x.SetOutputs(nil)
				}
			case 6:
				api.LevelFrom(pick(r, oddWords...))
			}
			x.Critical("own")
			x.WithFields().Errorf("%d")
		}) {
			return
		}
	}
	if later {
		time.Sleep(20 * time.Second)
	}
	_ = doing
	mustGood := []string{memText(outputOf(w, pfx+"good", 0)), readFile(filepath.Join(dir, "good", "rf.log"))}
	for i, got := range mustGood {
		if got != wantGood.String() {
			fail("output in order disturbed", "output %d of the logger in order has %q, want %q", i, clip(got, 600), clip(wantGood.String(), 600))
			return
		}
	}
	for _, l := range ls {
		if l.shared && made[l.name] {
			for i, n := range l.outs {
				if n == pfx+"shared" {
					if got := memText(outputOf(w, l.name, i)); got != wantShared.String() {
						fail("output in order disturbed", "the output in order of %q has %q, want %q", l.name, clip(got, 600), clip(wantShared.String(), 600))
						return
					}
				}
			}
			break
		}
	}
	// broken text is refused or not, but does not crash
	if r.Intn(3) == 0 {
		bs, x := []byte(jsonText(r, cfg)), "json"
		if r.Intn(2) == 0 {
			bs, x = []byte(yamlText(r, cfg)), pick(r, "yaml", "YML", "Json", "json", "toml", "")
		}
		for n := 1 + r.Intn(4); n > 0 && len(bs) > 0; n-- {
			i := r.Intn(len(bs))
			switch r.Intn(5) {
			case 0:
				bs[i] ^= byte(1 << r.Intn(8))
			case 1:
				bs = append(bs[:i:i], bs[min(len(bs), i+1+r.Intn(20)):]...)
			case 2:
				bs = bs[:i]
			case 3:
				bs = append(bs[:i:i], append([]byte(pick(r, "null", "[", "]", "{", "}", ":", "- ", "\n", "\"", "&a ", "*a", "<<: *a", "!!", "1", "~", "\t", "|", ">", "%", "\x00", "loggers: \n", "outputs: [null]\n", "[[[[[[[[")), bs[i:]...)...)
			case 4:
				j := r.Intn(len(bs))
				bs = append(bs[:i:i], append([]byte(nil), bs[min(i, j):max(i, j)]...)...)
			}
		}
		// no file outside the scratch directory, which is the current one
		bs = []byte(strings.ReplaceAll(string(bs), "/", "_"))
		text = string(bs)
		if c, err := refParse(text, strings.ToLower(x)); err == nil {
			for _, o := range c.Outputs {
				if o["file"] != filepath.Base(o["file"]) || o["file"] == ".." {
					bs = nil
				}
			}
		}
		if !guard(fmt.Sprintf("LoadConfig of %q as %q", clip(text, 2000), x), func() {
			if mgr().LoadConfig(bs, x) == nil {
				w.Count("broken text accepted", 1)
			} else {
				w.Count("broken text refused", 1)
			}
		}) {
			return
		}
		for i := 0; i < 3; i++ {
			if !guard("a record after broken text "+clip(text, 2000), func() { getLogger(ls[r.Intn(len(ls))].name).Criticalf("x") }) {
				return
			}
		}
	}
	// an ordinary configuration works afterwards
	b := (&Cfg{}).quietRoot(pfx + "n")
	b.format(pfx+"nf", "%{msg}\n")
	b.out(pfx+"no", "memory", pfx+"nf")
	b.logger(pfx+"good", "all", pfx+"no")
	if !guard("SetConfig", func() { b.load(w) }) {
		return
	}
	guard("a record after an ordinary configuration", func() { getLogger(pfx + "good").Info("after") })
	if got := memText(outputOf(w, pfx+"good", 0)); got != "after\n" {
		fail("output in order disturbed", "after an ordinary configuration its output has %q", got)
	}
	w.Eval(hash(desc))
	w.Sample("%s", clip(desc, 800))
}
