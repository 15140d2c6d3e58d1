package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "a round lets 2-16 goroutines, released together, look up overlapping fresh names and their ancestors in random orders (names in part differing only in case, blanks or separators, or with empty elements; some while configurations are loaded and levels set); afterwards all handles of a name must be identical, handles of different names distinct, and levels set through any handle must be seen through every handle of that name and its descendants, also when they are set while others look levels up all the time. Distinct by the order in which the first lookups of the names were observed.",
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c := 4, 3000
			if th {
				n, c = 40, 4000
			}
			for _, p := range []int{2, 4, 8, 16} {
				js = append(js, jobs(fmt.Sprintf("p%d", p), seed, n, c, map[string]int{"procs": p})...)
			}
			return js
		},
		Worker: c03,
		Min:    map[string]int{"levels set during lookups": 20000, "evaluations": 1500, "lookups": 50000, "distinct": 200, "levels seen by descendants": 5000, "contended names": 2000, "heads with unusual names": 2000},
	})
}

func c03(w *W) {
	gomaxprocs(w)
	r := w.Rng
	useRec()
	for round := 0; round < w.Job.N && !w.Failed(); round++ {
		pfx := fmt.Sprintf("n%dx%d", w.Job.P["procs"], round)
		// names: chains below a few heads, and their ancestors
		var names []string
		set := map[string]bool{}
		odd := 0
		for i := 0; i < 1+r.Intn(3); i++ {
			n := fmt.Sprintf("%s%c", pfx, 'a'+i)
			if r.Intn(4) == 0 { // names which are almost the same
				odd++
				for _, x := range pick(r, []string{n + "\xff", n + "\xfe", n + "\ufffd", n + "?"}, []string{n + "é", n + "e\u0301", n + "e"}, []string{n, strings.ToUpper(n), " " + n, n + " ", n + "\x00"},
					[]string{n + "/", n + ".", n + "//", n + "/."}, []string{n + strings.Repeat("n", 300), n + strings.Repeat("n", 301)}, long03(n, r.Intn(5000)), []string{n + "/b", n + ".b", n + "//b", n + "/b/"}) {
					for _, y := range append(ancestors(x), x) {
						if y != "root" && !set[y] {
							set[y] = true
							names = append(names, y)
						}
					}
				}
			}
			if r.Intn(4) == 0 { // similar names, and unusual ones
				odd++
				n = pick(r, "/"+n, "."+n, strings.ToUpper(n), " "+n, n+" ", n+"\xff", n+"é", n+"/", n+"//", "\x00"+n, "root"+n, n+strings.Repeat("n", 300))
			}
			for d := 0; d <= 1+r.Intn(5); d++ {
				if d > 0 {
					n += pick(r, "/", ".") + pick(r, "a", "b", "c", "a", "b", "c", "", "A", "root")
				}
				for _, x := range append(ancestors(n), n) {
					if x != "root" && !set[x] {
						set[x] = true
						names = append(names, x)
					}
				}
			}
		}
		g := 2 + r.Intn(15)
		perms := make([][]int, g)
		delay := make([]int, g)
		for i := range perms {
			perms[i] = r.Perm(len(names))
			if r.Intn(3) == 0 { // the deepest first
				for a := range perms[i] {
					perms[i][a] = len(names) - 1 - a
				}
			}
			delay[i] = r.Intn(200)
		}
		withLoad := r.Intn(6) == 0
		withSet := r.Intn(3) == 0
		hs := make([]map[string]api.Logger, g)
		var firstMu atomic.Int64
		first := make([]int64, len(names))
		var roots [2]api.Logger
		par(g, func(i int) {
			for k := 0; k < delay[i]; k++ {
				clock.Load()
			}
			m := map[string]api.Logger{}
			for _, x := range perms[i] {
				m[names[x]] = getLogger(names[x])
				atomic.CompareAndSwapInt64(&first[x], 0, firstMu.Add(1))
				if withSet && i == 0 {
					m[names[x]].SetLevel(api.Uninitialized)
				}
			}
			if i == 0 {
				roots[0], roots[1] = getLogger(""), getLogger("root")
			}
			if withLoad && i == 1 {
				b := (&Cfg{}).format(pfx+"f", "%{msg}").out(pfx+"o", "vrec", pfx+"f").logger("root", "all", pfx+"o")
				b.load(w)
			}
			hs[i] = m
		})
		w.Count("lookups", g*len(names))
		w.Count("heads with unusual names", odd)
		if roots[0] != roots[1] || roots[0] == nil {
			w.Fail("root name", "GetLogger(\"\") and GetLogger(\"root\") differ")
		}
		byH := map[api.Logger]string{roots[0]: "root"}
		for _, n := range []string{"Root", "ROOT", "rooT", " root", "root ", "root/", "root.", "/root", ".root", "root\x00", "\x00", " ", "r\u00f6\u00f6t", "null", "<nil>"} {
			h := getLogger(n)
			if o, ok := byH[h]; ok {
				w.Fail("one logger for two names", "%q and %q", o, n)
			}
			byH[h] = n
		}
		for _, n := range names {
			for i := range hs {
				h := hs[i][n]
				if h == nil || h != hs[0][n] {
					w.Fail("several loggers of one name", "goroutines 0 and %d obtained different loggers %q (names %v, %d goroutines)", i, n, names, g)
					break
				}
			}
			h := hs[0][n]
			if h != getLogger(n) {
				w.Fail("several loggers of one name", "a later lookup of %q gives another logger", n)
			}
			if o, ok := byH[h]; ok && o != n {
				w.Fail("one logger for two names", "%q and %q", o, n)
			}
			byH[h] = n
			w.Count("contended names", 1)
		}
		// levels
		lv := map[string]api.Level{}
		roots[0].SetLevel(api.Warn)
		for k := 0; k < 6; k++ {
			n := names[r.Intn(len(names))]
			l := pick(r, levels...)
			hs[r.Intn(g)][n].SetLevel(l)
			lv[n] = l
			for _, x := range names {
				want := api.Warn
				if l, ok := lv[x]; ok {
					want = l
				} else {
					for _, a := range ancestors(x) {
						if l, ok := lv[a]; ok {
							want = l
							break
						}
					}
				}
				if got := hs[r.Intn(g)][x].Level(); got != want {
					w.Fail("level not seen", "after setting %v: level of %q is %v, want %v (names %v)", lv, x, got, want, names)
				}
				w.Count("levels seen by descendants", 1)
			}
		}
		if r.Intn(6) == 0 { // levels are looked up while they change
			setter := names[r.Intn(len(names))]
			var seers []string
			for _, x := range names {
				if x == setter || strings.HasPrefix(x, setter) {
					seers = append(seers, x)
				}
			}
			for _, x := range names {
				hs[0][x].SetLevel(api.Uninitialized)
				delete(lv, x)
			}
			under := map[string]bool{}
			for _, x := range seers {
				for _, a := range append(ancestors(x), x) {
					under[x] = under[x] || a == setter
				}
			}
			var stop atomic.Bool
			var wg sync.WaitGroup
			for i := 0; i < 1+r.Intn(3); i++ {
				h := hs[i%g]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for !stop.Load() {
						for _, x := range seers {
							h[x].Level()
						}
					}
				}()
			}
			h, bad := hs[g-1][setter], ""
			for k := 0; k < 400 && bad == ""; k++ {
				l := pick(r, levels...)
				h.SetLevel(l)
				for t := 0; t < 2; t++ { // what a late lookup may have left counts as well
					for _, x := range seers {
						want := api.Warn
						if under[x] {
							want = l
						}
						if got := hs[0][x].Level(); got != want {
							bad = fmt.Sprintf("level of %q is %v, should be %v: the level of %q was just set to %v", x, got, want, setter, l)
						}
					}
				}
				w.Count("levels set during lookups", 1)
			}
			stop.Store(true)
			wg.Wait()
			if bad != "" {
				w.Fail("level not seen", "%s, while %d goroutines looked levels up (names %v)", bad, g, names)
			}
		}
		// fresh descendants are linked to the same ancestors
		n := names[r.Intn(len(names))]
		hs[0][n].SetLevel(api.Error)
		if got := getLogger(n + "/fresh").Level(); got != api.Error {
			w.Fail("level not seen", "new child of %q has level %v", n, got)
		}
		ord := make([]string, len(names))
		for i := range names {
			ord[i] = fmt.Sprint(first[i] > first[0])
		}
		w.Eval(fmt.Sprintf("%d %d %s", g, len(names), hash(strings.Join(ord, ""))))
		w.Sample("%d goroutines, names %v, first lookups observed in order %v", g, names, first)
	}
}

// long03 are long names which differ in their last byte, their length or their middle.
func long03(n string, k int) []string {
	l := strings.Repeat("n", k)
	return []string{n + l, n + l + "x", n + l + "y", n + l + "xx", n + l + "x" + l, n + l + "y" + l}
}
