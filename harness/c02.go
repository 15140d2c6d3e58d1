package main

import (
	"fmt"
	"strings"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C02",
		Rule: "a case is a random tree of 3-14 logger names (separators / and . mixed, ASCII and non-ASCII segments, names sharing prefixes, children of root) and a random history of obtaining loggers, loading configurations of random subsets, SetLevel and SetOutputs, and records at random loggers and levels; every record must arrive exactly at the outputs of the nearest ancestor with outputs, under the logger's own name, if and only if the level of the nearest ancestor with a level enables it. Distinct by tree and history; non-trivial when some record reached inherited outputs.",
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 250
			if th {
				n, c = 160, 1000
			}
			return jobs("tree", seed, n, c, nil)
		},
		Worker: func(w *W) {
			useRec()
			for i := 0; i < w.Job.N && !w.Failed(); i++ {
				c02case(w, i)
			}
		},
		Min: map[string]int{"evaluations": 300, "inherited deliveries": 3000, "own deliveries": 1000, "suppressed": 1000, "ancestor created after descendant": 300, "configured after creation": 300, "deep names": 100},
	})
}

// treeModel is the documented behaviour of levels and outputs.
type treeModel struct {
	lvl  map[string]api.Level
	outs map[string][]string
}

// ancestors of a name, nearest first, ending at root.
func ancestors(name string) []string {
	var as []string
	for i := len(name) - 1; i > 0; i-- {
		if name[i] == '/' || name[i] == '.' {
			as = append(as, name[:i])
		}
	}
	return append(as, "root")
}

func (m *treeModel) level(name string) api.Level {
	if l, ok := m.lvl[name]; ok {
		return l
	}
	for _, a := range ancestors(name) {
		if l, ok := m.lvl[a]; ok {
			return l
		}
	}
	return api.Off
}

func (m *treeModel) outputs(name string) (src string, outs []string) {
	if o := m.outs[name]; len(o) > 0 {
		return name, o
	}
	for _, a := range ancestors(name) {
		if o := m.outs[a]; len(o) > 0 {
			return a, o
		}
	}
	return "", nil
}

func randTree(w *W, pfx string) []string {
	r := w.Rng
	segs := []string{"a", "b", "ab", "x1", "日本", "é", "c-d", "a:b", "a\\b", "a_b", "a b", "ab:", "root", "B", "", " ", "\xff", "A"}
	set := map[string]bool{}
	var names []string
	add := func(n string) {
		if !set[n] {
			set[n] = true
			names = append(names, n)
		}
	}
	top := []string{pfx, pfx + "z", "root/" + pfx, "é" + pfx}
	n := 3 + r.Intn(12)
	if r.Intn(15) == 0 { // a very deep one
		d := pick(r, top...)
		k := 40 + r.Intn(pick(r, 30, 300))
		cut := 1 + r.Intn(k/4)
		for i := 0; i < k; i++ {
			if i == cut {
				add(d)
			}
			d += pick(r, "/", ".") + pick(r, segs...)
		}
		add(d)
		w.Count("deep names", 1)
	}
	for len(names) < n {
		base := pick(r, top...)
		if len(names) > 0 && r.Intn(3) > 0 {
			base = pick(r, names...)
		}
		if r.Intn(8) == 0 { // what looks like an element but is none
			base += pick(r, ":", "\\", "_", "-", " ", "|", ",", ";", "@", "#", "::", "->", "\n", "\t", "\x00", "\u2215", "\uff0e", "\u3002", "\u2024", "%2F") + pick(r, segs...)
		}
		for d := r.Intn(4); d > 0; d-- {
			base += pick(r, "/", ".") + pick(r, segs...)
		}
		add(base)
	}
	return names
}

func c02case(w *W, ci int) {
	r := w.Rng
	pfx := fmt.Sprintf("t%d", ci)
	names := randTree(w, pfx)
	m := &treeModel{lvl: map[string]api.Level{}, outs: map[string][]string{}}
	handles := map[string]api.Logger{}
	created := map[string]bool{}
	var hist []string
	nrec, inh := 0, 0
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	get := func(n string) api.Logger {
		if created[n] {
			return handles[n]
		}
		for o := range created {
			for _, a := range ancestors(o) {
				if a == n {
					w.Count("ancestor created after descendant", 1)
				}
			}
		}
		created[n] = true
		handles[n] = getLogger(n)
		note("get %s", n)
		return handles[n]
	}
	gen := 0
	apiLvl := map[string]bool{}
	apiOut := map[string]bool{}
	api1 := map[string]api.Output{} // outputs made by hand
	confd := map[string]bool{}      // mentioned by the current configuration
	fn := pfx + "f"
	load := func() {
		gen++
		b := (&Cfg{}).format(fn, "%{module}|%{msg}")
		nm := &treeModel{lvl: map[string]api.Level{}, outs: map[string][]string{}}
		nout := 1 + r.Intn(5)
		for i := 0; i < nout; i++ {
			b.out(fmt.Sprintf("%so%d.%d", pfx, gen, i), "vrec", fn)
		}
		conf := map[string]bool{}
		cand := append([]string{"root"}, names...)
		// names which are no loggers yet (interior nodes) are configured as well
		for _, n := range names {
			cand = append(cand, ancestors(n)...)
		}
		for i, n := range cand {
			if conf[n] || (i > 0 && r.Intn(5) < 3) {
				continue
			}
			if len(cand) > 100 && i > len(names) && r.Intn(len(cand)) > 3 { // few in a deep tree
				continue
			}
			conf[n] = true
			// neither nothing nor a word which is no level is a level
			ln := pick(r, "", "", "", "err", "warning", "inf", "crit", "fatal", "debug1", "3", "null", "levels")
			if n == "root" || r.Intn(3) > 0 {
				l := pick(r, levels...)
				if n == "root" && r.Intn(2) == 0 {
					l = api.All
				}
				ln = randCase(r, levelNames[l])
				nm.lvl[n] = l
			}
			var on []string
			if k := r.Intn(3); n == "root" || k > 0 {
				for _, o := range r.Perm(nout)[:1+r.Intn(nout)] {
					on = append(on, fmt.Sprintf("%so%d.%d", pfx, gen, o))
				}
				nm.outs[n] = on
			}
			b.logger(n, ln, on...)
			if created[n] {
				w.Count("configured after creation", 1)
			}
			note("cfg %s level=%q outputs=%v", n, ln, on)
		}
		r.Shuffle(len(b.c.Loggers), func(i, j int) { b.c.Loggers[i], b.c.Loggers[j] = b.c.Loggers[j], b.c.Loggers[i] })
		if !b.load(w) {
			return
		}
		// what was set by hand on loggers the configuration does not mention is set again
		for n := range apiLvl {
			if !conf[n] {
				if confd[n] { // was configured: reset by the load
					delete(apiLvl, n)
				} else {
					nm.lvl[n] = m.lvl[n]
					handles[n].SetLevel(m.lvl[n])
				}
			} else {
				delete(apiLvl, n)
			}
		}
		for n := range apiOut {
			if !conf[n] && !confd[n] {
				nm.outs[n] = m.outs[n]
				var ops []api.Output
				for _, o := range m.outs[n] {
					ops = append(ops, api1[o])
				}
				handles[n].SetOutputs(ops)
			} else {
				delete(apiOut, n)
			}
		}
		confd = conf
		m = nm
	}
	// obtain some loggers before the first load
	for _, n := range names {
		if r.Intn(3) == 0 {
			get(n)
		}
	}
	load()
	manual := 0
	steps := 30 + r.Intn(40)
	for k := 0; k < steps && !w.Failed(); k++ {
		switch x := r.Intn(20); {
		case x == 0:
			load()
		case x <= 2:
			get(pick(r, names...))
		case x == 3: // obtain an interior node or root
			n := pick(r, names...)
			get(pick(r, ancestors(n)...))
		case x <= 5:
			n := pick(r, names...)
			l := pick(r, levels...)
			get(n).SetLevel(l)
			m.lvl[n] = l
			apiLvl[n] = true
			note("SetLevel %s %v", n, l)
		case x == 6:
			n := pick(r, names...)
			rec := &Rec{def: map[string]string{}}
			f, err := formatterOf(w, fn, m, pfx)
			if err != nil {
				continue
			}
			rec.SetFormatter(f)
			manual++
			on := fmt.Sprintf("%smanual%d", pfx, manual)
			recMu.Lock()
			recs[on] = []*Rec{rec}
			recMu.Unlock()
			api1[on] = rec
			get(n).SetOutputs([]api.Output{rec})
			m.outs[n] = []string{on}
			apiOut[n] = true
			note("SetOutputs %s %s", n, on)
		default:
			n := pick(r, names...)
			if r.Intn(12) == 0 {
				n = "root"
			}
			var wr api.Writer = get(n)
			c := pick(r, logCalls...)
			src, want := m.outputs(n)
			eff := m.level(n)
			if got := handles[n].Level(); got != eff {
				w.Fail("inherited level", "%s: Level() = %v, want %v; history %v", n, got, eff, hist)
			}
			if got, exp := handles[n].LevelEnabled(c.lvl), rank(c.lvl) >= rank(eff); got != exp {
				w.Fail("inherited level", "%s at %v: LevelEnabled(%v) = %v; history %v", n, eff, c.lvl, got, hist)
			}
			msg := fmt.Sprintf("m%d", nrec)
			nrec++
			exp := map[string]bool{}
			if rank(c.lvl) >= rank(eff) {
				for _, o := range want {
					exp[o] = true
				}
			}
			c.f(wr, msg)
			note("%s.%s", n, c.name)
			// all outputs of this case
			recMu.Lock()
			all := map[string][]*Rec{}
			for o, rs := range recs {
				if strings.HasPrefix(o, pfx+"o") || strings.HasPrefix(o, pfx+"manual") {
					all[o] = rs
				}
			}
			recMu.Unlock()
			for o, rs := range all {
				got := 0
				for _, rc := range rs {
					for _, e := range rc.take() {
						got++
						if e.Text != n+"|"+msg || e.Name != n || e.Level != c.lvl {
							w.Fail("inherited delivery", "output %s received %+v for record %q of %s; history %v", o, e, msg, n, hist)
						}
					}
				}
				if exp[o] && got != 1 || !exp[o] && got != 0 {
					w.Fail("inherited delivery", "%s logged at %v (effective level %v, outputs %v of %q): output %s received it %d times; history %v", n, c.lvl, eff, want, src, o, got, hist)
				}
			}
			switch {
			case len(exp) == 0:
				w.Count("suppressed", 1)
			case src == n:
				w.Count("own deliveries", 1)
			default:
				inh++
				w.Count("inherited deliveries", 1)
			}
		}
	}
	recMu.Lock()
	for o := range recs {
		delete(recs, o)
	}
	recMu.Unlock()
	key := ""
	if inh > 0 {
		key = strings.Join(hist, ";")
	}
	w.Eval(hash(key))
	w.Sample("names %v; %s", names, strings.Join(hist, "; "))
}

// formatterOf returns a formatter with the layout of the case.
func formatterOf(w *W, fn string, m *treeModel, pfx string) (api.Formatter, error) {
	for _, outs := range m.outs {
		for _, o := range outs {
			if r := recOf(o); r != nil && r.f != nil {
				return r.f, nil
			}
		}
	}
	return nil, fmt.Errorf("none")
}
