package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C24",
		Rule: "a case makes 1-4 writers per logger (WithFields with 1-5, now and then hundreds of random fields incl. repeated keys, WithCtx with nested values, also contexts of other types which cannot be compared, the plain logger) over a chain of 1-4 loggers whose outputs are at one or two ancestors (memory, sync and async rolling, syslog, custom, with different layouts) and logs through them, sequentially or from several goroutines that share writers; each record must show exactly its writer's values. Non-trivial when a record with fields went through inherited outputs or several writers were used concurrently.",
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 200
			if th {
				n, c = 200, 500
			}
			return jobs("fields", seed, n, c, nil)
		},
		Worker: c24,
		Min:    map[string]int{"evaluations": 200, "records with fields": 10000, "inherited": 3000, "concurrent": 3000, "repeated keys": 300, "writers with many fields": 300, "contexts of other types": 300},
	})
}

type ctxKey string

type sliceCtx struct {
	context.Context
	s []any
}

type wrapCtx struct{ context.Context }

type mapCtx struct {
	context.Context
	vs map[any]any
}

func (m mapCtx) Value(k any) any { return m.vs[k] }

func c24(w *W) {
	r := w.Rng
	d := startSyslogd(w.Dir + "/syslog.sock")
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("q%d", ci)
		keys := []string{"user", "reqID", "n", "x9"}
		b := &Cfg{}
		b.quietRoot(pfx)
		var sinks []*Sink
		var lay, vrb [][]string
		cons := false
		for i := 0; i < 1+r.Intn(3); i++ {
			kind := pick(r, sinkKinds...)
			if strings.HasPrefix(kind, "console") {
				if cons {
					kind = "vrec"
				}
				cons = true
			}
			// the layout shows all keys in its own order; caller information on some
			ks := append([]string(nil), keys...)
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			l := "%{msg}"
			var verbs []string
			for _, k := range ks {
				v := pick(r, "", ":v", ":v", ":#v", ":+v")
				l += "|" + k + "=%{" + k + v + "}"
				verbs = append(verbs, strings.Replace(ifel(v == "", ":v", v), ":", "%", 1))
			}
			vrb = append(vrb, verbs)
			l += pick(r, "", "|%{line:.0d}", "|%{shortfunc:.0s}", "|%{longpkg:.0s}")
			if strings.Contains(l[len(l)-8:], ".0") {
				// rendered as nothing (numbers keep their digits, so only strings)
				if strings.Contains(l, "line") {
					l = l[:strings.LastIndex(l, "|%{line")]
				}
			}
			lay = append(lay, ks)
			b.format(fmt.Sprintf("%sf%d", pfx, i), l+"\n")
			sinks = append(sinks, addSink(w, b, kind, fmt.Sprintf("%so%d", pfx, i), fmt.Sprintf("%sf%d", pfx, i), "batch_num", "3"))
		}
		depth := 1 + r.Intn(4)
		name := pfx
		var names []string
		for i := 0; i < depth; i++ {
			if i > 0 {
				name += pick(r, "/", ".") + "s"
			}
			names = append(names, name)
		}
		var on []string
		for _, s := range sinks {
			on = append(on, s.name)
		}
		b.logger(names[0], "all", on...)
		if depth > 2 && r.Intn(2) == 0 {
			b.logger(names[depth-1], pick(r, "all", "info"))
		}
		if !loadSinks(w, b, sinks) {
			return
		}
		type fw struct {
			w    api.Writer
			vals map[string]any
			inh  bool
			desc string
		}
		var ws []fw
		uniq := 0
		val := func() any {
			uniq++
			switch r.Intn(9) {
			case 8: // values which look alike
				return pick[any](r, 1, "1", 1.0, int64(1), uint8(1), "1 b=2", []int{1}, "[1]", "<nil>", true, "true")
			case 5:
				return nil
			case 6:
				return pick[any](r, "", 0, false, []int(nil), map[string]int{}, error(nil), (*int)(nil))
			case 0:
				return fmt.Sprintf("v%d-%d", ci, uniq)
			case 1:
				return uniq
			case 2:
				return fmt.Sprintf("100%%d %%{msg} %d", uniq)
			case 3:
				return []int{uniq, 2}
			default:
				return float64(uniq) + 0.5
			}
		}
		for _, n := range names {
			l := getLogger(n)
			var last []api.Field
			for k := 0; k < 1+r.Intn(4); k++ {
				f := fw{w: l, vals: map[string]any{}, inh: n != names[0], desc: n}
				switch r.Intn(5) {
				case 0:
				case 1:
					ctx := context.Background()
					for j := 0; j < 1+r.Intn(5); j++ {
						key, v := pick(r, keys...), val()
						ctx = context.WithValue(ctx, key, v)
						f.vals[key] = v
						// a value of another key type is another key
						ctx = context.WithValue(ctx, ctxKey(pick(r, keys...)), "wrong")
					}
					if r.Intn(3) == 0 {
						var cancel func()
						ctx, cancel = context.WithCancel(ctx)
						cancel()
					}
					switch r.Intn(6) {
					case 0: // contexts of other types, which cannot be compared
						ctx = sliceCtx{ctx, []any{ci}}
						w.Count("contexts of other types", 1)
					case 1:
						ctx = wrapCtx{ctx}
						w.Count("contexts of other types", 1)
					case 2:
						vs := map[any]any{}
						for key, v := range f.vals {
							vs[key] = v
						}
						ctx = mapCtx{context.Background(), vs}
						w.Count("contexts of other types", 1)
					}
					f.w = l.WithCtx(ctx)
					f.desc += fmt.Sprintf(".WithCtx(%v)", f.vals)
				default:
					var fs []api.Field
					nf := 1 + r.Intn(5)
					if r.Intn(12) == 0 {
						nf = 10 + r.Intn(300)
						w.Count("writers with many fields", 1)
					}
					for j := 0; j < nf; j++ {
						key, v := pick(r, keys...), val()
						if nf > 5 && r.Intn(8) > 0 {
							key = fmt.Sprintf("k%d", r.Intn(nf))
						}
						fs = append(fs, api.Field{Key: key, Value: v})
						if _, dup := f.vals[key]; dup {
							w.Count("repeated keys", 1)
						}
						f.vals[key] = v
					}
					if last != nil && r.Intn(5) == 0 {
						// fields which look like those of another writer
						fs, f.vals = nil, map[string]any{}
						for _, o := range last {
							o.Value = fmt.Sprint(o.Value)
							fs = append(fs, o)
							f.vals[o.Key] = o.Value
						}
						w.Count("writers with fields looking alike", 1)
					}
					last = append([]api.Field(nil), fs...)
					f.w = l.WithFields(fs...)
					f.desc += fmt.Sprintf(".WithFields(%v)", fs)
					for j := range fs { // the caller's slice is its own
						fs[j] = api.Field{Key: "user", Value: "overwritten"}
					}
				}
				ws = append(ws, f)
			}
		}
		conc := r.Intn(2) == 0
		G := 1
		if conc {
			G = 2 + r.Intn(6)
		}
		per := 3 + r.Intn(20)
		type job struct{ wi, call int }
		plan := make([][]job, G)
		for g := range plan {
			for k := 0; k < per; k++ {
				plan[g] = append(plan[g], job{r.Intn(len(ws)), r.Intn(len(logCalls))})
			}
		}
		par(G, func(g int) {
			for k, j := range plan[g] {
				logCalls[j.call].f(ws[j.wi].w, fmt.Sprintf("m%d.%d", g, k))
			}
		})
		eff := func(f fw, l api.Level) bool {
			// only the deepest logger may have a level of its own
			return rank(l) >= rank(getLogger(strings.SplitN(f.desc, ".With", 2)[0]).Level())
		}
		mgr().Close()
		drainSyslog(d, sinks)
		nontriv := conc
		for si, s := range sinks {
			want := map[string]string{}
			for g := range plan {
				for k, j := range plan[g] {
					f := ws[j.wi]
					if !eff(f, logCalls[j.call].lvl) {
						continue
					}
					m := fmt.Sprintf("m%d.%d", g, k)
					line := m
					for ki, key := range lay[si] {
						if v, ok := f.vals[key]; ok {
							line += fmt.Sprintf("|%s="+vrb[si][ki], key, v)
						} else {
							line += "|" + key + "=\x00"
						}
					}
					want[m] = line
					if len(f.vals) > 0 {
						w.Count("records with fields", 1)
					}
					if f.inh {
						w.Count("inherited", 1)
						nontriv = nontriv || len(f.vals) > 0
					}
					if conc {
						w.Count("concurrent", 1)
					}
				}
			}
			got := strings.Split(strings.TrimSuffix(s.content(d), "\n"), "\n")
			n := 0
			for _, line := range got {
				if line == "" {
					continue
				}
				n++
				m, _, _ := strings.Cut(line, "|")
				exp, ok := want[m]
				if !ok || !matchMissing(strings.TrimSuffix(line, "|"), exp) {
					w.Fail("field values", "output %v: line %q, want %q (\\x00: no value); writers %v", s, line, exp, ws)
				}
				delete(want, m)
			}
			for m, exp := range want {
				w.Fail("field values", "output %v: record %s missing, want %q", s, m, exp)
				break
			}
			s.close()
		}
		key := ""
		if nontriv {
			key = fmt.Sprint(ci, w.Job.Seed, len(ws), G, per, depth)
		}
		w.Eval(key)
		w.Sample("writers %v; outputs %v; %d goroutines", ws, sinks, G)
	}
}

// matchMissing compares where \x00 in want stands for whatever a missing value is
// rendered as, which must not be a value of another writer.
func matchMissing(got, want string) bool {
	gp, wp := strings.Split(got, "|"), strings.Split(want, "|")
	if len(gp) != len(wp) {
		return false
	}
	for i := range gp {
		if strings.HasSuffix(wp[i], "=\x00") {
			k := strings.TrimSuffix(wp[i], "\x00")
			if !strings.HasPrefix(gp[i], k) {
				return false
			}
			v := strings.TrimPrefix(gp[i], k)
			if v != "<nil>" && v != "" && !strings.Contains(v, "nil") && !strings.Contains(v, "MISSING") {
				return false
			}
			continue
		}
		if gp[i] != wp[i] {
			return false
		}
	}
	return true
}
