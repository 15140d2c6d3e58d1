package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C29",
		Rule: "a round lets 2-4 goroutines, released together, load 2-8 different valid configurations over the same names (formats, outputs of several types and loggers kept, changed, removed) through all entry points, and refused ones in between, while others look loggers up for the first time and log. Calls and returns are stamped. A marker output tells which configuration is in force afterwards: it must be one that no other accepted load wholly followed; then records through loggers held since earlier, looked up during the loads and new must be delivered exactly as the model of that one configuration says, at every level and output. Distinct by configurations and winner; non-trivial when loads overlapped.",
		Assume: []string{
			"virtual time for the probes after the loads; the loads themselves run in parallel",
			"records logged while loads run are not judged here",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 96, 120
			if th {
				n, c = 400, 500
			}
			return jobs("par", seed, n, c, map[string]int{"bubble": 1})
		},
		Worker: c29,
		Min:    map[string]int{"evaluations": 5000, "loads": 20000, "refused loads": 2000, "rounds with overlapping loads": 3000, "records after the loads": 100000, "lookups during loads": 200000, "records during loads": 20000, "winners other than the last to start": 500, "distinct": 3000},
	})
}

func c29(w *W) {
	useRec()
	r := w.Rng
	uniq := 0
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		runtime.GOMAXPROCS(pick(r, 2, 4, 8))
		x := newCfgWorld(w, fmt.Sprintf("w%d", ci))
		mark, markOut := x.pfx+"mark", x.pfx+"om"
		for round := 0; round < 1+r.Intn(3) && !w.Failed(); round++ {
			type ld struct {
				c         *api.Config
				id        string
				how       int
				text      string
				call, ret int64
				bad       bool
				err       error
			}
			G := 2 + r.Intn(3)
			plan := make([][]*ld, G)
			var all []*ld
			for k := 2 + r.Intn(7); k > 0 || len(plan[0]) == 0; k-- {
				uniq++
				l := &ld{c: x.next(), id: fmt.Sprint(uniq), how: r.Intn(4)}
				if r.Intn(3) == 0 && len(all) > 0 { // almost the same as another
					l.c = cloneCfg(all[r.Intn(len(all))].c)
					for i := range l.c.Outputs {
						if l.c.Outputs[i].Name() == markOut {
							l.c.Outputs[i]["variant"] = l.id
						}
					}
					if len(l.c.Loggers) > 1 && r.Intn(2) == 0 {
						l.c.Loggers[0].Level = pick(r, "warn", "debug", "off")
					}
				} else {
					l.c.Formats = append(l.c.Formats, api.CfgFormat{"type": "text", "name": x.pfx + "fm", "layout": "%{msg}\n"})
					l.c.Outputs = append(l.c.Outputs, api.CfgOutput{"type": "vrec", "name": markOut, "format": x.pfx + "fm", "variant": l.id})
					l.c.Loggers = append(l.c.Loggers, api.CfgLogger{Name: mark, Level: "all", OutputNames: []string{markOut}})
				}
				if l.c.GetCfgLogger(x.pfx+"bad") != nil {
					l.bad = true
				} else if r.Intn(6) == 0 {
					l.bad = true
					l.c.Loggers = append(l.c.Loggers, api.CfgLogger{Name: x.pfx + "bad", OutputNames: []string{"undefined"}})
				}
				switch l.how {
				case 1:
					l.text = jsonText(r, l.c)
				case 2, 3:
					l.text = yamlText(r, l.c)
				}
				if l.how > 0 { // as the text says
					p, err := refParse(l.text, ifel(l.how == 1, "json", "yaml"))
					if err != nil {
						l.how, l.text = 0, ""
					} else {
						l.c = p
					}
				}
				all = append(all, l)
				g := r.Intn(G)
				plan[g] = append(plan[g], l)
			}
			// at least one must be accepted
			good := false
			for _, l := range all {
				good = good || !l.bad
			}
			if !good {
				continue
			}
			var stop atomic.Bool
			var bg sync.WaitGroup
			var held sync.Map
			for k := 0; k < r.Intn(4); k++ {
				bg.Add(1)
				br := rand.New(rand.NewSource(r.Int63()))
				go func() {
					defer bg.Done()
					for i := 0; i < 5 || !stop.Load(); i++ {
						if i > 200 {
							return
						}
						n := x.names[br.Intn(len(x.names))]
						if br.Intn(3) == 0 {
							n += fmt.Sprintf("/d%d", br.Intn(20))
						}
						l := getLogger(n)
						held.Store(n, l)
						w.Count("lookups during loads", 1)
						if br.Intn(2) == 0 {
							l.Error("during")
							w.Count("records during loads", 1)
						}
						jitter(br)
					}
				}()
			}
			seeds := make([]int64, G)
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			par(G, func(g int) {
				gr := rand.New(rand.NewSource(seeds[g]))
				for i, l := range plan[g] {
					jitter(gr)
					l.call = tick()
					switch l.how {
					case 0:
						l.err = mgr().SetConfig(l.c)
					case 1:
						l.err = mgr().LoadConfig([]byte(l.text), "json")
					case 2:
						l.err = mgr().LoadConfig([]byte(l.text), "yml")
					case 3:
						p := filepath.Join(w.Dir, fmt.Sprintf("c%d.%d.yaml", g, i))
						os.WriteFile(p, []byte(l.text), 0644)
						l.call = tick()
						l.err = mgr().LoadConfigFile(p)
					}
					l.ret = tick()
				}
			})
			stop.Store(true)
			bg.Wait()
			var cands []*ld
			var last *ld
			desc := ""
			for g := range plan {
				for _, l := range plan[g] {
					desc += fmt.Sprintf("[%d-%d] goroutine %d loads #%s bad=%v (%s); ", l.call, l.ret, g, l.id, l.bad, cfgString(l.c))
				}
			}
			for _, l := range all {
				if l.bad {
					w.Count("refused loads", 1)
					if l.err == nil {
						w.Fail("bad configuration accepted", "load #%s of %s", l.id, desc)
					}
					continue
				}
				w.Count("loads", 1)
				if l.err != nil {
					w.Fail("valid configuration refused", "load #%s: %v; %s", l.id, l.err, desc)
					return
				}
				later := false
				for _, m := range all {
					later = later || !m.bad && m.call > l.ret
				}
				if !later {
					cands = append(cands, l)
				}
				if last == nil || l.call > last.call {
					last = l
				}
			}
			ops, _, err := mgr().GetLoggerOutputs(mark)
			if err != nil || len(ops) != 1 {
				w.Fail("outputs of a logger unavailable", "GetLoggerOutputs(marker) = %d outputs, %v; %s", len(ops), err, desc)
				return
			}
			rec, _ := ops[0].(*Rec)
			if rec == nil {
				w.Fail("outputs of a logger unavailable", "the marker logger has the output %T; %s", ops[0], desc)
				return
			}
			var win *ld
			for _, l := range cands {
				if l.id == rec.def["variant"] {
					win = l
				}
			}
			if win == nil {
				w.Fail("not the configuration loaded last", "#%s is in force; %s", rec.def["variant"], desc)
				return
			}
			x.note("concurrently: %s; #%s won", desc, win.id)
			x.flush()
			x.cur = win.c
			x.mem = map[string]apiOutput{}
			x.ready()
			held.Range(func(k, v any) bool {
				if n := k.(string); !strings.Contains(n, "/d") && r.Intn(2) == 0 {
					x.held[n] = v.(api.Logger)
				}
				return true
			})
			rec.take()
			x.drain()
			getLogger(mark).Info("m")
			if t := rec.texts(); len(t) != 1 || rec.closed > 0 {
				w.Fail("wrong deliveries", "a record through the marker logger arrives %d times at the output in force (closed %d times); %s", len(t), rec.closed, desc)
				return
			}
			want := map[string]string{}
			n := 30 + r.Intn(30)
			x.burst(n, want)
			w.Count("records after the loads", n)
			x.flush()
			if !x.compare(want, fmt.Sprintf("after concurrent loads won by #%s", win.id)) {
				return
			}
			key := ""
			if len(cands) > 1 {
				w.Count("rounds with overlapping loads", 1)
				if win != last {
					w.Count("winners other than the last to start", 1)
				}
				key = hash(desc + win.id)
			}
			w.Eval(key)
			w.Sample("%s won by #%s", desc, win.id)
		}
	}
}
