package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C13",
		Rule: "a case is a set of random layouts (literal text with percent signs, braces and Unicode; verbs with fmt specifications and time layouts; fields), each on one or two outputs of a logger with a hostile name, and random records through every logging method with arguments of many types, also with fields named like verbs. The text of every output must equal an independent reference rendering (fmt and time packages applied per verb); time is virtual, hence exact. Non-trivial when the layout has a verb with a specification or a field; distinct by layout.",
		Assume: []string{
			"calls of a formatting method with a percent sign but without arguments, with an empty format, and fields which the record does not have, are not specified",
			"the rendering of %{time} without layout is the library's default layout 2006-01-02T15:04:05.000Z07:00",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 200
			if th {
				n, c = 400, 1000
			}
			js := jobs("layout", seed, n, c, map[string]int{"bubble": 1})
			zones := []string{"UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Chatham"}
			for i := range js {
				js[i].Env = []string{"TZ=" + zones[i%len(zones)]}
			}
			return append(js, slowJobs(seed, n/4, c/10)...)
		},
		Worker: c13,
		Min:    map[string]int{"evaluations": 20000, "verbs rendered": 50000, "verbs with a specification": 20000, "fields rendered": 5000, "records": 10000, "records with hostile text": 5000, "slow records": 3000, "records with like-named fields": 3000, "distinct": 2000},
	})
}

type c13str string
type c13stringer struct{ a, b int }

func (s c13stringer) String() string { return fmt.Sprintf("<%d%%{msg}%d>", s.a, s.b) }

type c13struct struct {
	A int
	B string
	c []byte
}

var hostile = []string{"", "plain", "100%", "%d", "%s%s%s%n", "%!d(MISSING)", "%{msg}", "%{level:-5s}|%{time}", "a\nb", "tab\there", "\x00\x01\xff\xfe", "漢字かな", "🙂 emoji", "\\n \\ \\}", "{}%}{", "%%", "%", "'\"`$(x)", strings.Repeat("long%v ", 60), "\r\n", "%[1]d %[2]*.[1]*f", "%-10s|%+v"}

func c13value(r *rand.Rand) any {
	switch r.Intn(18) {
	case 0:
		return r.Intn(2000) - 1000
	case 1:
		if r.Intn(60) == 0 {
			return strings.Repeat("0123456789abcdef 漢%s", r.Intn(pick(r, 100, 500, 10000)))
		}
		return pick(r, hostile...)
	case 2:
		return r.NormFloat64()
	case 3:
		return r.Intn(2) == 0
	case 4:
		return []byte(pick(r, hostile...))
	case 5:
		return errors.New(pick(r, hostile...))
	case 6:
		return c13stringer{r.Intn(9), r.Intn(9)}
	case 7:
		return &c13struct{r.Intn(9), pick(r, hostile...), []byte("x")}
	case 8:
		return c13struct{r.Intn(9), pick(r, hostile...), nil}
	case 9:
		return map[string]int{"a": 1, "b%d": 2}
	case 10:
		return []any{1, "two", 3.0, nil}
	case 11:
		return c13str(pick(r, hostile...))
	case 12:
		return nil
	case 13:
		return time.Duration(r.Int63())
	case 14:
		return uint64(math.MaxUint64 - uint64(r.Intn(9)))
	case 15:
		return 'x'
	case 16:
		return complex(1, 2)
	}
	return []string{"p", pick(r, hostile...)}
}

type c13part struct {
	lit  string // literal text if verb == ""
	verb string
	spec string
}

func (p c13part) String() string {
	if p.verb == "" {
		return p.lit
	}
	if p.spec == "" {
		return "%{" + p.verb + "}"
	}
	return "%{" + p.verb + ":" + p.spec + "}"
}

func c13literal(r *rand.Rand) string {
	for {
		var b strings.Builder
		for k := 1 + r.Intn(4); k > 0; k-- {
			b.WriteString(pick(r, " ", "|", ">> ", "%", "%%", "{", "}", "%d", "%s", "{msg}", "x", "100%", "\t", "漢", "\"", "'", "\\", ":", "-5s", "[", "]", "%v", "$", "%!", "%_{", "% {msg}", "text "))
		}
		s := b.String()
		if !strings.Contains(s, "%{") {
			return s
		}
	}
}

func c13layout(r *rand.Rand, fields []string) (parts []c13part, layout string) {
	strSpecs := []string{"s", "v", "q", "5s", "-10s", ".3s", "x", "-8.2s", "20s", "+q", "#v", "X", "T", "010s"}
	intSpecs := []string{"d", "05d", "6d", "x", "-8d", "+d", "v", "#x", "b", "o", "T", "010d", "8v", "c"}
	anySpecs := []string{"v", "+v", "#v", "T", "s", "d", "q", "5v", "-12v", "x", "6.2f", "t", "p1", "08v"}
	timeSpecs := []string{"2006-01-02", "15:04:05", "2006-01-02T15:04:05.999Z-07:00", "Jan _2 2006 03:04PM", "Mon Monday January MST", "2006-01-02 15:04:05.000000000", "at 15h", "02/01/06", "5", "Z07:00", "20060102150405.000", "15:04:05,000", time.RFC1123Z}
	n := 1 + r.Intn(8)
	if r.Intn(40) == 0 {
		n = 20 + r.Intn(200)
	}
	lastLit := false
	for i := 0; i < n || len(parts) == 0 || i < 40 && !hasVerb(parts); i++ {
		if !lastLit && r.Intn(2) == 0 {
			parts = append(parts, c13part{lit: c13literal(r)})
			lastLit = true
			continue
		}
		lastLit = false
		p := c13part{verb: pick(r, "msg", "msg", "module", "level", "lvl", "time", "time", "pid", "program", "FIELD", "FIELD")}
		spec := r.Intn(3) > 0
		switch p.verb {
		case "FIELD":
			if len(fields) == 0 {
				p.verb = "msg"
				break
			}
			p.verb = pick(r, fields...)
			if spec {
				p.spec = pick(r, anySpecs...)
				if p.spec == "p1" {
					p.spec = "v"
				}
			}
		case "time":
			if spec {
				p.spec = pick(r, timeSpecs...)
			}
		case "pid":
			if spec {
				p.spec = pick(r, intSpecs...)
			}
		default:
			if spec {
				p.spec = pick(r, strSpecs...)
			}
		}
		parts = append(parts, p)
	}
	if !hasVerb(parts) {
		parts = append(parts, c13part{verb: "msg"})
	}
	var b strings.Builder
	for _, p := range parts {
		b.WriteString(p.String())
	}
	return parts, b.String()
}

func hasVerb(ps []c13part) bool {
	for _, p := range ps {
		if p.verb != "" {
			return true
		}
	}
	return false
}

// logf calls a logging method by name; formatted says whether format is used.
func logAny(wr api.Writer, lvl api.Level, formatted, viaPrintf bool, format string, args []any) {
	if viaPrintf {
		wr.Printf(lvl, format, args...)
		return
	}
	if formatted {
		switch lvl {
		case api.Trace:
			wr.Tracef(format, args...)
		case api.Debug:
			wr.Debugf(format, args...)
		case api.Info:
			wr.Infof(format, args...)
		case api.Warn:
			wr.Warnf(format, args...)
		case api.Error:
			wr.Errorf(format, args...)
		case api.Critical:
			wr.Criticalf(format, args...)
		}
		return
	}
	switch lvl {
	case api.Trace:
		wr.Trace(args...)
	case api.Debug:
		wr.Debug(args...)
	case api.Info:
		wr.Info(args...)
	case api.Warn:
		wr.Warn(args...)
	case api.Error:
		wr.Error(args...)
	case api.Critical:
		wr.Critical(args...)
	}
}

func c13(w *W) {
	if w.Job.Kind == "slow" {
		slowWorkers["C13"](w)
		return
	}
	r := w.Rng
	useRec()
	time.Sleep(time.Duration(r.Int63n(int64(30 * 365 * 24 * time.Hour))))
	fieldNames := []string{"f1", "user", "reqid", "X9", "n0", "Id"}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("l%d", ci)
		name := pfx + pick(r, "", "/a", ".b.c", "%d", "/%{msg}", " sp ace", "-漢字", "\"q'", "%", "/x%sy.z", "{}", ":5s")
		var fields []string
		for _, f := range fieldNames {
			if r.Intn(2) == 0 {
				fields = append(fields, f)
			}
		}
		type target struct {
			sink   *Sink
			parts  []c13part
			layout string
			want   strings.Builder
		}
		b := (&Cfg{}).quietRoot(pfx)
		var ts []*target
		var sinks []*Sink
		var names []string
		console := false
		for i := 0; i < 1+r.Intn(3); i++ {
			parts, layout := c13layout(r, fields)
			fn := fmt.Sprintf("%sf%d", pfx, i)
			b.format(fn, layout)
			for k := 0; k < 1+r.Intn(2); k++ {
				kind := pick(r, "memory", "vrec", "size", "size-async", "time", "console", "console-async")
				if strings.HasPrefix(kind, "console") {
					if console {
						kind = "memory"
					}
					console = true
				}
				on := fmt.Sprintf("%so%d-%d", pfx, i, k)
				t := &target{sink: addSink(w, b, kind, on, fn), parts: parts, layout: layout}
				ts = append(ts, t)
				sinks = append(sinks, t.sink)
				names = append(names, on)
			}
		}
		b.logger(name, "all", names...)
		if !loadSinks(w, b, sinks) {
			return
		}
		lg := getLogger(name)
		n := 6 + r.Intn(8)
		for k := 0; k < n; k++ {
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Int63n(int64(pick(r, time.Millisecond, time.Second, time.Minute, 20*time.Hour)))))
			}
			lvl := pick(r, recLevels...)
			viaPrintf := r.Intn(5) == 0
			formatted := viaPrintf || r.Intn(2) == 0
			var args []any
			format := ""
			na := r.Intn(4)
			if r.Intn(30) == 0 {
				na = pick(r, 8, 17, 33, 65, 100+r.Intn(300))
				w.Count("records with many arguments", 1)
			}
			for i := na; i > 0; i-- {
				args = append(args, c13value(r))
			}
			if formatted {
				if len(args) == 0 {
					format = pick(r, "text", "漢字", "{msg}", "a\tb", "no arguments")
				} else {
					format = pick(r, "%v", "%v %v", "%s|%d", "%[1]v", "x%-8vy", "%+v%%", "%q%%{msg}%d", "%T %v %v", "no verbs", "%d%d%d%d", "%{msg}", "%*d", strings.Repeat("no verbs ", 1+r.Intn(60)), strings.Repeat("漢", 200)+"%v", " ", "\n", strings.Repeat("%v ", na+r.Intn(3)), strings.Repeat("%v ", 1+r.Intn(40)), "%", "%!", "%-", "%[9]d", "%[1", strings.Repeat("y", r.Intn(3000))+"%d", "%08.3f|%x|% x|%#v", "%v%")
				}
			}
			var msg string
			switch {
			case !formatted:
				msg = fmt.Sprint(args...)
			case len(args) == 0:
				msg = format
			default:
				msg = fmt.Sprintf(format, args...)
			}
			vals := map[string]any{}
			var wr api.Writer = lg
			if len(fields) > 0 {
				if r.Intn(2) == 0 {
					var fs []api.Field
					for _, f := range fields {
						v := c13value(r)
						vals[f] = v
						fs = append(fs, api.Field{Key: f, Value: v})
					}
					wr = lg.WithFields(fs...)
				} else {
					ctx := context.Background()
					for _, f := range fields {
						v := c13value(r)
						vals[f] = v
						ctx = context.WithValue(ctx, f, v)
					}
					wr = lg.WithCtx(ctx)
				}
			}
			if r.Intn(4) == 0 { // keys which are verbs, and others nobody asks for
				w.Count("records with like-named fields", 1)
				if len(vals) > 0 {
					ctx := context.Background()
					for k, v := range vals {
						ctx = context.WithValue(ctx, k, v)
					}
					wr = lg.WithCtx(ctx13(r, ctx))
				} else if r.Intn(2) == 0 {
					wr = lg.WithCtx(ctx13(r, context.Background()))
				} else {
					var fs []api.Field
					for _, k := range c13decoys {
						fs = append(fs, api.Field{Key: k, Value: c13value(r)})
					}
					wr = lg.WithFields(fs...)
				}
			}
			now := time.Now()
			logAny(wr, lvl, formatted, viaPrintf, format, args)
			w.Count("records", 1)
			if strings.ContainsAny(msg, "%{}\n\x00") || !utf8.ValidString(msg) {
				w.Count("records with hostile text", 1)
			}
			for _, t := range ts {
				for _, p := range t.parts {
					var v any
					switch p.verb {
					case "":
						t.want.WriteString(p.lit)
						continue
					case "msg":
						v = msg
					case "module":
						v = name
					case "level":
						v = levelNames[lvl]
					case "lvl":
						v = shortNames[lvl]
					case "pid":
						v = os.Getpid()
					case "program":
						v = filepath.Base(os.Args[0])
					case "time":
						if p.spec == "" {
							v = now.Format("2006-01-02T15:04:05.000Z07:00")
						} else {
							v = now.Format(p.spec)
						}
					default:
						v = vals[p.verb]
						w.Count("fields rendered", 1)
					}
					w.Count("verbs rendered", 1)
					if p.spec == "" || p.verb == "time" {
						fmt.Fprint(&t.want, anyText{v})
					} else {
						w.Count("verbs with a specification", 1)
						fmt.Fprintf(&t.want, "%"+p.spec, v)
					}
				}
			}
		}
		for _, t := range ts {
			t.sink.out.Close()
		}
		for _, t := range ts {
			got, want := t.sink.content(nil), t.want.String()
			spec := false
			for _, p := range t.parts {
				spec = spec || p.spec != ""
			}
			key := ""
			if spec {
				key = hash(t.layout)
			}
			for i := 0; i < n; i++ {
				w.Eval(key)
			}
			if got != want {
				i := 0
				for i < len(got) && i < len(want) && got[i] == want[i] {
					i++
				}
				lo := max(0, i-60)
				w.Fail("wrong text", "case %d logger %q layout %q on %s: at byte %d the output has %q, the reference %q", ci, name, t.layout, t.sink.kind, i, clip(got[lo:], 300), clip(want[lo:], 300))
				break
			}
		}
		w.Sample("logger %q layouts %v", name, func() (ls []string) {
			for _, t := range ts {
				ls = append(ls, fmt.Sprintf("%q on %s", t.layout, t.sink.kind))
			}
			return
		}())
		for _, t := range ts {
			t.sink.close()
			if t.sink.path != "" {
				os.RemoveAll(t.sink.path)
			}
		}
	}
}

// c13decoys are keys of fields which no layout may show in place of its verbs.
var c13decoys = []string{"msg", "module", "level", "lvl", "time", "pid", "program", "line", "longfile", "shortfile", "longpkg", "shortfunc", "id", "name", "__caller_info", "_extend", ""}

func ctx13(r *rand.Rand, ctx context.Context) context.Context {
	for _, k := range c13decoys {
		if r.Intn(2) == 0 {
			ctx = context.WithValue(ctx, k, c13value(r))
		}
	}
	return ctx
}

// anyText prints a value as %v does.
type anyText struct{ v any }

func (a anyText) Format(f fmt.State, _ rune) { fmt.Fprintf(f, "%v", a.v) }
