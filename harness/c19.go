package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C19",
		Rule: "built with the race detector. A case logs from 1-6 goroutines to one to four synchronous and asynchronous outputs (fast, or a pipe nobody reads until all calls have returned) messages, short and up to 30 kB, whose arguments, field values and context values are mutable (pointers, slices, maps, byte slices, stringers, errors, formatters, buffers, big numbers, the argument slice itself; some records have fields only; own, or shared under a lock), changes every one of them right after each call, and compares each text written with one rendered before the call. Race reports with the library on a stack count too. Distinct by case; non-trivial when a value was changed while records waited.",
		Assume: []string{
			"a value used in several records is not changed between the call and its return",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 8, 40
			if th {
				n, c = 48, 250
			}
			return append(jobs("fast", seed, n, c, nil), jobs("stalled", seed, n, c, nil)...)
		},
		Worker:  c19,
		Timeout: 200 * time.Second,
		Min:     map[string]int{"evaluations": 500, "records": 40000, "values changed after a call": 100000, "texts compared": 60000, "texts from asynchronous outputs": 30000, "records waiting when their values changed": 10000, "kinds of values": 18, "long records": 10000, "records without arguments": 3000, "distinct": 500},
	})
}

type mutS struct {
	A int
	B string
	C []int
	M map[string]int
	P *mutS
}
type mutStr struct {
	n int
	p []string
}

func (s *mutStr) String() string { return fmt.Sprint("S", s.n, s.p) }

type mutErr struct{ n int }

func (e *mutErr) Error() string { return fmt.Sprint("err", e.n) }

type mutFmt struct{ n []int }

func (f *mutFmt) Format(s fmt.State, c rune) { fmt.Fprintf(s, "F%c%v", c, f.n) }

type mutGo struct{ n int }

func (g *mutGo) GoString() string { return fmt.Sprint("G", g.n) }
func (g *mutGo) String() string   { return fmt.Sprint("g", g.n) }

// mutable is a value and a way to change it.
type mutable struct {
	kind   string
	v      any
	change func(r *rand.Rand)
}

func newMutable(r *rand.Rand) mutable {
	x := r.Intn(1000)
	switch k := r.Intn(19); k {
	case 0:
		p := &mutS{A: x, B: "b", C: []int{1, 2}, M: map[string]int{"a": 1}}
		return mutable{"pointer to struct", p, func(r *rand.Rand) { p.A++; p.B += "x"; p.C[0]++; p.M["a"]++ }}
	case 1:
		s := mutS{A: x, C: []int{x, 2}, M: map[string]int{}}
		return mutable{"struct with slice", s, func(r *rand.Rand) { s.C[0]++; s.M[fmt.Sprint(len(s.M)%9)]++ }}
	case 2:
		s := []int{x, 1, 2}
		return mutable{"slice", s, func(r *rand.Rand) { s[r.Intn(3)]++ }}
	case 3:
		m := map[string]int{"a": x, "b": 2}
		return mutable{"map", m, func(r *rand.Rand) { m["a"]++; m[fmt.Sprint(r.Intn(5))] = 1 }}
	case 4:
		b := []byte("bytes....")
		return mutable{"bytes", b, func(r *rand.Rand) { b[r.Intn(len(b))] = byte('a' + r.Intn(26)) }}
	case 5:
		s := &mutStr{x, []string{"p", "q"}}
		return mutable{"stringer", s, func(r *rand.Rand) { s.n++; s.p[0] += "z" }}
	case 6:
		e := &mutErr{x}
		return mutable{"error", e, func(r *rand.Rand) { e.n++ }}
	case 7:
		f := &mutFmt{[]int{x}}
		return mutable{"formatter", f, func(r *rand.Rand) { f.n[0]++ }}
	case 8:
		g := &mutGo{x}
		return mutable{"go stringer", g, func(r *rand.Rand) { g.n++ }}
	case 9:
		s := [][]byte{[]byte("ab"), []byte("cd")}
		return mutable{"slice of bytes", s, func(r *rand.Rand) { s[1][0]++; s[0] = append([]byte(nil), "xy"...) }}
	case 10:
		s := []any{x, "s", []int{1}}
		return mutable{"slice of any", s, func(r *rand.Rand) { s[0] = r.Intn(99); s[2].([]int)[0]++ }}
	case 11:
		t := time.Unix(int64(x), 0).UTC()
		return mutable{"pointer to time", &t, func(r *rand.Rand) { t = t.Add(time.Second) }}
	case 12:
		b := big.NewInt(int64(x))
		return mutable{"big number", b, func(r *rand.Rand) { b.Add(b, big.NewInt(1)) }}
	case 13:
		var b bytes.Buffer
		b.WriteString("buf")
		return mutable{"buffer", &b, func(r *rand.Rand) { b.WriteByte(byte('a' + r.Intn(26))) }}
	case 14:
		e := &mutErr{x}
		w := fmt.Errorf("wrap: %w", errors.Join(e, errors.New("other")))
		_ = w
		j := &joined{e}
		return mutable{"nested error", j, func(r *rand.Rand) { e.n++ }}
	case 15:
		m := map[string][]int{"k": {x}}
		return mutable{"map of slices", m, func(r *rand.Rand) { m["k"][0]++ }}
	case 16:
		p := &mutS{A: x}
		s := []fmt.Stringer{&mutStr{1, []string{"a"}}}
		return mutable{"slice of stringers", s, func(r *rand.Rand) { p.A++; s[0].(*mutStr).n++ }}
	case 17:
		a := &[3]int{x, 2, 3}
		return mutable{"pointer to array", a, func(r *rand.Rand) { a[r.Intn(3)]++ }}
	}
	b := &strings.Builder{}
	b.WriteString("sb")
	return mutable{"string builder", b, func(r *rand.Rand) { b.WriteByte('!') }}
}

type joined struct{ e error }

func (j *joined) Error() string { return "nested " + j.e.Error() }

func c19(w *W) {
	quietStderr()
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		c19case(w, ci)
	}
}

func c19case(w *W, ci int) {
	r := w.Rng
	stalled := w.Job.Kind == "stalled"
	pfx := fmt.Sprintf("v%d", ci)
	b := (&Cfg{}).quietRoot(pfx)
	b.format(pfx+"f", "%{msg}|%{k}|%{j}\n")
	kv := []string{"queue_size", "5000", "batch_num", pick(r, "1", "3", "20", "500")}
	var sinks []*Sink
	var on []string
	add := func(k string) {
		s := addSink(w, b, k, fmt.Sprintf("%so%d", pfx, len(sinks)), pfx+"f", kv...)
		sinks = append(sinks, s)
		on = append(on, s.name)
	}
	cons := "console-async"
	if !stalled && r.Intn(3) == 0 {
		cons = "console"
	}
	add(cons)
	for len(sinks) < 1+r.Intn(4) {
		add(pick(r, "size-async", "time-async", "size-async", "time-async", "memory", "vrec", "size"))
	}
	r.Shuffle(len(on), func(i, j int) { on[i], on[j] = on[j], on[i] })
	b.logger(pfx+"l", "all", on...)
	lname := pfx + "l" + pick(r, "", "/sub", "/a/b")
	ok := false
	var pr, pw *os.File
	var text chan string
	if stalled {
		pr, pw, _ = os.Pipe()
		withStdout(pw, func() { ok = b.load(w); getLogger(lname); outputOf(w, pfx+"l", 0) })
		for _, s := range sinks {
			for i, n := range on {
				if n == s.name {
					s.out = outputOf(w, pfx+"l", i)
				}
			}
		}
	} else {
		ok = loadSinks(w, b, sinks)
	}
	if !ok {
		return
	}
	l := getLogger(lname)
	G := 1 + r.Intn(6)
	per := 10 + r.Intn(50)
	want := make([]map[string]string, G)
	seeds := make([]int64, G)
	for g := range seeds {
		want[g] = map[string]string{}
		seeds[g] = r.Int63()
	}
	// objects shared between the goroutines, used and changed under a lock
	var mu sync.Mutex
	shared := []mutable{newMutable(r), newMutable(r)}
	changed := make([]int, G)
	long := pick(r, 0, 0, 300, 3000, 3000, 30000) // some cases have long records
	kinds := make([]map[string]bool, G)
	par(G, func(g int) {
		r := rand.New(rand.NewSource(seeds[g]))
		kinds[g] = map[string]bool{}
		var own []mutable
		var writers []struct {
			w    api.Writer
			k, j any
			mk   []mutable
		}
		for i := 0; i < per; i++ {
			if len(own) < 3 || r.Intn(3) == 0 {
				own = append(own, newMutable(r))
				if len(own) > 6 {
					own = own[1:]
				}
			}
			var used []mutable
			locked := r.Intn(4) == 0
			take := func() mutable {
				m := own[r.Intn(len(own))]
				if locked && r.Intn(2) == 0 {
					m = shared[r.Intn(2)]
				}
				used = append(used, m)
				kinds[g][m.kind] = true
				return m
			}
			if locked {
				mu.Lock()
			}
			key := fmt.Sprintf("R%d.%d.", g, i)
			args := []any{key}
			format := "%s"
			n := r.Intn(4)
			for k := 0; k < n; k++ {
				args = append(args, take().v)
				format += pick(r, " %v", " %+v", " %v", " %#v", " %s", " %x", " %d", " %q")
			}
			if long > 0 && r.Intn(2) == 0 {
				args = append(args, strings.Repeat(string(rune('a'+r.Intn(26))), r.Intn(long)))
				format += " %s"
				w.Count("long records", 1)
			}
			var wr api.Writer = l
			var fk, fj any = nil, nil
			switch r.Intn(4) {
			case 0:
				fs := []api.Field{{Key: "k", Value: take().v}, {Key: "j", Value: i}}
				wr, fk, fj = l.WithFields(fs...), fs[0].Value, i
				fs[0].Value, fs[1].Value = "changed", "changed"
			case 1:
				fk = take().v
				wr = l.WithCtx(context.WithValue(context.Background(), "k", fk)) //nolint
			case 2: // a writer used before
				if len(writers) == 0 || r.Intn(3) == 0 {
					m := own[0]
					writers = append(writers, struct {
						w    api.Writer
						k, j any
						mk   []mutable
					}{l.WithFields(api.Field{Key: "k", Value: m.v}), m.v, nil, []mutable{m}})
				}
				x := writers[r.Intn(len(writers))]
				wr, fk, fj = x.w, x.k, x.j
				used = append(used, x.mk...)
			}
			clean := func(v any) string { return fmt.Sprintf("%v", v) }
			var msg string
			switch r.Intn(3) {
			case 0:
				msg = fmt.Sprint(args...)
			default:
				msg = fmt.Sprintf(format, args...)
			}
			bare := fk != nil && r.Intn(4) == 0
			if bare { // a message without arguments is taken as it is
				msg = key + "bare %d"
			}
			// how a missing field is shown is not specified
			line := msg + "|"
			if fk != nil {
				line += clean(fk) + "|"
				if fj != nil {
					line += clean(fj) + "\x00"
				}
			}
			if strings.Contains(line, "\n") {
				panic("harness: line end in a value: " + line)
			}
			want[g][key] = line
			lvl := r.Intn(6)
			if bare {
				w.Count("records without arguments", 1)
				if r.Intn(4) == 0 {
					wr.Printf(recLevels[lvl], msg)
				} else {
					[]func(string, ...any){wr.Tracef, wr.Debugf, wr.Infof, wr.Warnf, wr.Errorf, wr.Criticalf}[lvl](msg)
				}
			} else if msg == fmt.Sprint(args...) {
				[]func(...any){wr.Trace, wr.Debug, wr.Info, wr.Warn, wr.Error, wr.Critical}[lvl](args...)
			} else if r.Intn(4) == 0 {
				wr.Printf(recLevels[lvl], format, args...)
			} else {
				[]func(string, ...any){wr.Tracef, wr.Debugf, wr.Infof, wr.Warnf, wr.Errorf, wr.Criticalf}[lvl](format, args...)
			}
			// everything may change now
			for _, m := range used {
				m.change(r)
				changed[g]++
			}
			for k := range args {
				args[k] = "changed"
				changed[g]++
			}
			if locked {
				mu.Unlock()
			}
		}
	})
	if stalled {
		text = make(chan string, 1)
		go func() {
			var sb strings.Builder
			buf := make([]byte, 1<<16)
			for {
				n, err := pr.Read(buf)
				sb.Write(buf[:n])
				if err != nil {
					text <- sb.String()
					return
				}
			}
		}()
	}
	mgr().Close()
	total := 0
	for g := range want {
		total += len(want[g])
		w.Count("values changed after a call", changed[g])
		for k := range kinds[g] {
			w.Key("kinds of values", k)
		}
	}
	w.Count("records", total)
	for _, s := range sinks {
		var got string
		if stalled && s.kind == "console-async" {
			pw.Close()
			got = <-text
			pr.Close()
			w.Count("records waiting when their values changed", total)
		} else {
			got = s.content(nil)
		}
		seen := map[string]bool{}
		for _, line := range strings.Split(got, "\n") {
			if line == "" {
				continue
			}
			var g, i int
			fmt.Sscanf(line, "R%d.%d.", &g, &i)
			key := fmt.Sprintf("R%d.%d.", g, i)
			if g < 0 || g >= G || want[g][key] == "" || !strings.HasPrefix(line+"\x00", want[g][key]) {
				wt := ""
				if g >= 0 && g < G {
					wt = want[g][key]
				}
				w.Fail("text differs from the values at the call", "case %d output %s: %q, before the call %q", ci, s, clip(line, 600), clip(wt, 600))
				break
			}
			seen[key] = true
			w.Count("texts compared", 1)
			if s.async {
				w.Count("texts from asynchronous outputs", 1)
			}
		}
		if len(seen) != total && !w.Failed() {
			w.Fail("record missing", "case %d output %s: %d of %d records", ci, s, len(seen), total)
		}
		s.close()
		if s.path != "" {
			os.RemoveAll(filepath.Join(w.Dir, s.name))
			os.Remove(s.path)
		}
	}
	w.Eval(fmt.Sprintf("%d %s %d", w.Job.Seed, w.Job.Kind, ci))
	w.Sample("%s: %d goroutines x %d records to %v, %d changes", w.Job.Kind, G, per, sinks, changed[0])
}
