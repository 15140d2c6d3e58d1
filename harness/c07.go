package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:     "C07",
		Rule:   "a case lets 1-12 goroutines log records of random size through 1-3 loggers into a size-rolled file (real time, limits from 1 byte to many records, records up to 150 kB and batches to megabytes) or a time-rolled file (virtual clock, goroutines sleeping fractions to multiples of the period), in both naming modes, sync and async, in 1-3 lives on the same files; backups read oldest to newest plus the current file must give the written records whole, once, in real-time order, missing at most the oldest part and only when the backup limit is reached. Kinds 'reload*': configurations which define the output of the file anew are loaded while records which take time to be formatted are on their way (with an asynchronous output those on their way during a load may be missing or out of order). Kind 'autumn': period names come again when daylight saving ends; every record must still be there once. Non-trivial when at least two rotations happened; distinct by configuration and resulting order.",
		Assume: []string{"lives after the first are new outputs on the same files in the same process"},
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c := 2, 60
			if th {
				n, c = 12, 300
			}
			for _, p := range []int{2, 4, 8} {
				js = append(js, jobs("size", seed+int64(p), n, c, map[string]int{"procs": p})...)
				js = append(js, jobs("size-async", seed+int64(p), n, c, map[string]int{"procs": p})...)
				js = append(js, jobs("size", seed+100+int64(p), n, c/4, map[string]int{"procs": p, "big": 1})...)
				js = append(js, jobs("size-async", seed+100+int64(p), n, c/4, map[string]int{"procs": p, "big": 1})...)
				js = append(js, jobs("time-async", seed+100+int64(p), n, c/6, map[string]int{"procs": p, "big": 1, "bubble": 1})...)
				js = append(js, jobs("time", seed+int64(p), n, c/2, map[string]int{"procs": p, "bubble": 1})...)
				js = append(js, jobs("time-async", seed+int64(p), n, c/2, map[string]int{"procs": p, "bubble": 1})...)
				js = append(js, jobs("reload", seed+int64(p), n, c/2, map[string]int{"procs": p})...)
				js = append(js, jobs("reload-async", seed+int64(p), n, c/2, map[string]int{"procs": p})...)
				js = append(js, jobs("reload-time", seed+int64(p), 2*n, c/30, map[string]int{"procs": p})...)
			}
			for _, z := range []string{"Europe/Berlin", "America/New_York", "Australia/Lord_Howe"} {
				for _, j := range jobs("autumn", seed, n, c/2, map[string]int{"bubble": 1}) {
					j.Env = []string{"TZ=" + z}
					js = append(js, j)
				}
			}
			return js
		},
		Worker: c07,
		Min:    map[string]int{"evaluations": 400, "rotations seen": 4000, "records present": 50000, "writer switches": 10000, "cases with nothing dropped": 50, "cases with the oldest dropped": 50, "outputs defined anew while logging": 500, "rotations around such loads": 500, "period names that came again": 60, "distinct": 300},
	})
}

func c07(w *W) {
	gomaxprocs(w)
	if strings.HasPrefix(w.Job.Kind, "reload") {
		c07reload(w)
		return
	}
	if w.Job.Kind == "autumn" {
		c07autumn(w)
		return
	}
	r := w.Rng
	kind, async := strings.TrimSuffix(w.Job.Kind, "-async"), strings.HasSuffix(w.Job.Kind, "-async")
	big := w.Job.P["big"] == 1
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("r%d", ci)
		dir := filepath.Join(w.Dir, pfx)
		base := pick(r, "rf.log", "app", ".rf.log", "日 志.log", "a.b.log", "x-1.log")
		file := filepath.Join(dir, base)
		prefix := r.Intn(2) == 0
		G := 1 + r.Intn(12)
		lives := 1 + r.Intn(3)
		per := pick(r, 5, 20, 100)
		maxSize := pick(r, 0, 20, 100, 1000)
		if big {
			G = 1 + r.Intn(3)
			per = pick(r, 5, 20, 60)
			maxSize = pick(r, 500, 5000, 30000, 150000)
		}
		total := G * per * lives * (maxSize/2 + 15)
		var limit, backups int
		noDrop := r.Intn(2) == 0
		if noDrop {
			backups = 20
			limit = total/12 + 40
		} else {
			backups = 1 + r.Intn(20)
			limit = pick(r, 1, 50, 300, 3000)
			if big {
				limit = pick(r, 1000, 5000, 40000, 200000)
			}
		}
		pattern := pick(r, "2006-01-02T15.04.05", "20060102-150405", "2006-01-02T15.04", "2006-01-02")
		period := map[string]time.Duration{"2006-01-02T15.04.05": time.Second, "20060102-150405": time.Second, "2006-01-02T15.04": time.Minute, "2006-01-02": 24 * time.Hour}[pattern]
		st := newStream()
		cfgDesc := ""
		last := 0
		for life := 0; life < lives; life++ {
			b := (&Cfg{}).quietRoot(fmt.Sprintf("%sv%d", pfx, life))
			fn := fmt.Sprintf("%sf%d", pfx, life)
			b.format(fn, "%{msg}\n")
			kv := []string{"file", file, "backups", fmt.Sprint(backups)}
			if prefix {
				kv = append(kv, "name_mode", "prefix")
			} else if r.Intn(2) == 0 {
				kv = append(kv, "name_mode", "postfix")
			}
			batch := 1 + r.Intn(10)
			if big {
				batch = pick(r, 5, 50, 500)
			}
			if async {
				kv = append(kv, "async", "true", "queue_size", fmt.Sprint(1+r.Intn(50)), "batch_num", fmt.Sprint(batch))
			}
			on := fmt.Sprintf("%so%d", pfx, life)
			if kind == "size" {
				b.out(on, "size_rolling_file", fn, append(kv, "size", fmt.Sprint(limit))...)
			} else {
				b.out(on, "time_rolling_file", fn, append(kv, "pattern", pattern)...)
			}
			nl := 1 + r.Intn(3)
			var ls []api.Logger
			for i := 0; i < nl; i++ {
				b.logger(fmt.Sprintf("%sl%d", pfx, i), "all", on)
			}
			if life > 0 && kind == "time" {
				// the kernel stamped the file with real time
				os.Chtimes(file, time.Now(), time.Now())
			}
			if !b.load(w) {
				return
			}
			for i := 0; i < nl; i++ {
				ls = append(ls, getLogger(fmt.Sprintf("%sl%d", pfx, i)))
			}
			cfgDesc = fmt.Sprint(b.c.Outputs[1])
			naps := make([][]time.Duration, G)
			sizes := make([][]int, G)
			for g := range naps {
				for k := 0; k < per; k++ {
					var d time.Duration
					if kind == "time" {
						switch r.Intn(6) {
						case 0:
							d = time.Duration(r.Int63n(int64(period)))
						case 1:
							d = period
							if noDrop {
								d = time.Duration(r.Int63n(int64(period) / int64(per) / 4))
							}
						case 2:
							d = time.Duration(r.Int63n(int64(period) / 10))
						}
						if noDrop && r.Intn(4) > 0 {
							d = 0
						}
					}
					naps[g] = append(naps[g], d)
					sizes[g] = append(sizes[g], r.Intn(maxSize+1))
				}
			}
			lifeBase := life * per
			par(G, func(g int) {
				for k := 0; k < per; k++ {
					if d := naps[g][k]; d > 0 {
						time.Sleep(d)
					}
					st.log(recKey{g, lifeBase + k}, sizes[g][k], func(m string) { ls[(g+k)%nl].Info(m) })
				}
			})
			mgr().Close()
			var text string
			var nb int
			if kind == "size" {
				var bk []int
				text, bk = sizeStream(dir, base, prefix)
				nb = len(bk)
				if nb > 0 {
					w.Count("rotations seen", bk[nb-1]-last)
					last = bk[nb-1]
				}
			} else {
				var tb []string
				tb, _ = timeBackups(dir, base, pattern, prefix)
				nb = len(tb)
				var sb bytes.Buffer
				for _, n := range tb {
					sb.WriteString(readFile(filepath.Join(dir, n)))
				}
				sb.WriteString(readFile(file))
				text = sb.String()
				w.Count("rotations seen", nb)
			}
			sig, msg, info := st.check(text, nil, streamOpts{oldestOK: nb >= backups})
			if sig != "" {
				w.Fail(sig, "case %d life %d %v, %d goroutines, %d backups of at most %d present: %s", ci, life, cfgDesc, G, nb, backups, msg)
				break
			}
			w.Count("records present", info.present)
			w.Count("writer switches", info.switches)
			if life == lives-1 {
				if info.missing > 0 {
					w.Count("cases with the oldest dropped", 1)
				} else if nb >= 2 {
					w.Count("cases with nothing dropped", 1)
				}
				key := ""
				if nb >= 2 || info.missing > 0 {
					key = fmt.Sprintf("%s %d %d %x", w.Job.Kind, backups, limit, info.order)
				}
				w.Eval(key)
				w.Sample("%v, %d goroutines x %d records x %d lives: %d backups, %d records present, %d dropped with the oldest backups", cfgDesc, G, per, lives, nb, info.present, info.missing)
			}
		}
		os.RemoveAll(dir)
	}
}

// c07reload logs to a file whose output is defined anew time and again.
func c07reload(w *W) {
	quietStderr()
	r := w.Rng
	async, timed := w.Job.Kind == "reload-async", w.Job.Kind == "reload-time"
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("n%d", ci)
		dir := filepath.Join(w.Dir, pfx)
		base := pick(r, "rf.log", "app", ".rf.log", "日 志.log")
		prefix := r.Intn(2) == 0
		G := 1 + r.Intn(8)
		per := pick(r, 10, 40)
		maxSize := pick(r, 20, 200)
		loads := 2 + r.Intn(6)
		slow := pick(r, 50, 300, 2000) // microseconds
		span := G * per * (maxSize/2 + 15)
		backups := 20
		if r.Intn(3) == 0 && !timed {
			backups = 1 + r.Intn(3)
		}
		rest := time.Duration(0) // between records
		if timed {
			rest = 2500 * time.Millisecond / time.Duration(per)
		}
		pattern := ""
		if timed {
			pattern = "20060102-150405"
		}
		var hist []string
		cfg := func(l int) *Cfg {
			b := (&Cfg{}).quietRoot(fmt.Sprintf("%sv%d", pfx, l))
			fn := fmt.Sprintf("%sf%d", pfx, l%2)
			b.format(fn, "%{msg}\n")
			kv := []string{"file", filepath.Join(dir, base), "backups", fmt.Sprint(backups), "name_mode", ifel(prefix, "prefix", "postfix"), "threshold", pick(r, "", "all", "debug"), "queue_size", fmt.Sprint(1 + l)}
			if async && r.Intn(4) > 0 {
				kv = append(kv, "async", "true", "batch_num", fmt.Sprint(1+r.Intn(10)))
			}
			if timed {
				b.out(pfx+"o", "time_rolling_file", fn, append(kv, "pattern", pattern)...)
			} else if backups == 20 {
				b.out(pfx+"o", "size_rolling_file", fn, append(kv, "size", fmt.Sprint(span/10+200*(1+r.Intn(2))))...)
			} else {
				b.out(pfx+"o", "size_rolling_file", fn, append(kv, "size", fmt.Sprint(pick(r, 1, 300, 3000)))...)
			}
			b.logger(pfx+"a", "all", pfx+"o")
			b.logger(pfx+"b", "all", pfx+"o")
			hist = append(hist, fmt.Sprint(b.c.Outputs[1]))
			return b
		}
		if !cfg(0).load(w) {
			return
		}
		ls := []api.Logger{getLogger(pfx + "a"), getLogger(pfx + "b"), getLogger(pfx + "b/c")}
		st := newStream()
		type span2 struct{ call, ret int64 }
		var ld []span2
		var mu sync.Mutex
		naps := make([]time.Duration, loads)
		for i := range naps {
			naps[i] = time.Duration(r.Intn(3*slow)) * time.Microsecond
			if timed {
				naps[i] = time.Duration(r.Int63n(int64(2500*time.Millisecond) / int64(loads) * 2))
			}
		}
		type rec struct {
			size int
			d    time.Duration
		}
		recs := make([][]rec, G)
		for g := range recs {
			for k := 0; k < per; k++ {
				x := rec{r.Intn(maxSize + 1), 0}
				if r.Intn(3) == 0 {
					x.d = time.Duration(r.Intn(slow)) * time.Microsecond
				}
				recs[g] = append(recs[g], x)
			}
		}
		ok := true
		done := make(chan bool)
		go func() {
			defer close(done)
			for l, d := range naps {
				time.Sleep(d)
				c := cfg(l + 1)
				x := span2{call: tick()}
				if !c.load(w) {
					ok = false
					return
				}
				x.ret = tick()
				mu.Lock()
				ld = append(ld, x)
				mu.Unlock()
				progress.Add(1)
			}
		}()
		par(G, func(g int) {
			for k, x := range recs[g] {
				st.log(recKey{g, k}, x.size, func(m string) { ls[(g+k)%3].Info(slowText{m, x.d}) })
				if rest > 0 {
					time.Sleep(rest)
				}
			}
		})
		<-done
		if !ok {
			return
		}
		mgr().Close()
		rs, cur, err := rolledFiles(dir, base, pattern, prefix)
		text := ""
		if err == nil {
			text, err = wholeLog(rs, cur)
		}
		if err != nil {
			w.Fail("log unreadable", "%v; loads %v", err, hist)
			return
		}
		o := streamOpts{oldestOK: len(rs) >= backups}
		if async {
			o.noOrder = true
			o.mayMiss = func(s *stamp) bool {
				for _, x := range ld {
					if s.call < x.ret && s.ret > x.call {
						return true
					}
				}
				return false
			}
		}
		if async && o.oldestOK {
			o.mayMiss = func(*stamp) bool { return true }
		}
		sig, msg, info := st.check(text, nil, o)
		if sig != "" {
			w.Fail(sig, "case %d: %s; files %s; outputs %v", ci, msg, rollsString(rs, cur), hist)
			return
		}
		w.Count("outputs defined anew while logging", loads)
		w.Count("records present", info.present)
		w.Count("writer switches", info.switches)
		nb := len(rs)
		if len(rs) > 0 && !timed {
			nb = int(rs[len(rs)-1].n)
		}
		w.Count("rotations around such loads", nb)
		key := ""
		if nb >= 1 {
			key = fmt.Sprintf("%s %d %x", w.Job.Kind, backups, info.order)
		}
		w.Eval(key)
		w.Sample("%d goroutines x %d records during %d loads of %s: %s", G, per, loads, hist[0], rollsString(rs, cur))
		os.RemoveAll(dir)
	}
}

// c07autumn logs around the hour that comes twice.
func c07autumn(w *W) {
	quietStderr()
	r := w.Rng
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		// the next switch back
		now := time.Now()
		t := now.Add(24 * time.Hour)
		for {
			_, a := t.Zone()
			if _, b := t.Add(30 * time.Minute).Zone(); b < a {
				break
			}
			t = t.Add(30 * time.Minute)
		}
		time.Sleep(t.Add(-time.Duration(r.Intn(90)) * time.Minute).Sub(now))
		pfx := fmt.Sprintf("u%d", ci)
		dir := filepath.Join(w.Dir, pfx)
		base := "rf.log"
		prefix := r.Intn(2) == 0
		async := r.Intn(3) == 0
		pt := pick(r, "2006-01-02T15.04", "200601021504", "2006-01-02-15")
		b := (&Cfg{}).quietRoot(pfx)
		b.format(pfx+"f", "%{msg}\n")
		kv := []string{"file", filepath.Join(dir, base), "pattern", pt, "backups", "20", "name_mode", ifel(prefix, "prefix", "")}
		if async {
			kv = append(kv, "async", "true", "batch_num", fmt.Sprint(1+r.Intn(3)))
		}
		b.out(pfx+"o", "time_rolling_file", pfx+"f", kv...)
		b.logger(pfx, "all", pfx+"o")
		if !b.load(w) {
			return
		}
		lg := getLogger(pfx)
		st := newStream()
		names := map[string]bool{}
		last, again := "", 0
		var hist []string
		n := 8 + r.Intn(11)
		for i := 0; i < n; i++ {
			p := time.Now().Format(pt)
			if p != last && names[p] {
				again++
			}
			names[p] = true
			last = p
			hist = append(hist, time.Now().Format("15:04:05 MST"))
			st.log(recKey{0, i}, r.Intn(50), func(m string) { lg.Info(m) })
			if async {
				time.Sleep(11 * time.Second)
			}
			// mostly to the same minutes of each half hour
			now := time.Now()
			time.Sleep(now.Truncate(5 * time.Minute).Add(time.Duration(5*(1+r.Intn(3)))*time.Minute + time.Duration(r.Intn(50))*time.Second).Sub(now))
		}
		mgr().Close()
		rs, cur, err := rolledFiles(dir, base, pt, prefix)
		text := ""
		if err == nil {
			text, err = wholeLog(rs, cur)
		}
		if err != nil {
			w.Fail("log unreadable", "%v; %v", err, hist)
			return
		}
		if sig, msg, _ := st.check(text, nil, streamOpts{noOrder: true}); sig != "" {
			w.Fail(sig, "zone %s pattern %s async=%v, records at %v: %s; files %s", time.Local, pt, async, hist, msg, rollsString(rs, cur))
			return
		}
		w.Count("period names that came again", again)
		key := ""
		if again > 0 {
			key = hash(fmt.Sprint(pt, prefix, async, hist))
		}
		w.Eval(key)
		w.Sample("%s %s async=%v: records at %v: %s", os.Getenv("TZ"), pt, async, hist, rollsString(rs, cur))
		os.RemoveAll(dir)
	}
}
