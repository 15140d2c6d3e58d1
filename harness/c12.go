//go:build oshook

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{
		ID:   "C12",
		Rule: "a case logs from one or several goroutines to a rolling output (by size or time, synchronous or asynchronous) whose file operations fail in windows, and to a second, healthy output, alternating healthy phases and windows (chosen sets of operations failing with some probability, writes optionally storing half of their bytes, and real obstacles such as a directory in the place of the file), also closing and reopening the output within a window. Every record of a healthy phase, and every record when only operations of a rotation failed, must be in the files exactly once and in order; the healthy output must have every record. In further cases files and directories in use are moved away, copied and truncated, replaced or removed, as by logrotate: where nothing is removed each record must be found exactly once, in the log or in what was moved away, under its period; after a removal records may be missing only until the file is due to roll or a restart. Non-trivial when a failure was injected or files were taken away; distinct by history.",
		Assume: []string{
			"failures are injected at the entry points of package os; time is virtual, so that asynchronous outputs can be known to be idle when a window begins or ends",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 80, 60
			if th {
				n, c = 600, 200
			}
			return append(jobs("fault", seed, n, c, map[string]int{"bubble": 1}), jobs("vanish", seed, n, c, map[string]int{"bubble": 1})...)
		},
		Worker: c12,
		Min:    map[string]int{"evaluations": 1000, "windows": 3000, "injected failures": 10000, "failed rotations": 1000, "records in healthy phases": 20000, "records in windows": 10000, "records in windows of failing rotations only": 3000, "records missing or cut": 1000, "closed in a window": 100, "recoveries": 2000, "periods observed after a window": 1000, "limits observed after a window": 3000, "files and directories taken away": 5000, "ways to take files away": 9, "records around files taken away": 50000, "records lost with a removed file": 1000, "backups whose period was checked": 1000, "distinct": 800},
	})
}

var rotOps = []string{"rename", "readdir", "open r", "remove", "chmod", "close"}
var writeOps = []string{"open w", "write", "mkdir"}

// tidy removes cut records in front of whole ones; frag counts them.
func tidy(text string) (string, int) {
	n := 0
	lines := strings.SplitAfter(text, "\n")
	for i, l := range lines {
		b := strings.TrimSuffix(l, "\n")
		if _, _, ok := parseRec(b); ok || l == "" {
			continue
		}
		n++
		lines[i] = ""
		if !strings.HasSuffix(l, "\n") {
			continue
		}
		for p := strings.LastIndexByte(b, 'R'); p > 0; p = strings.LastIndexByte(b[:p], 'R') {
			if _, _, ok := parseRec(b[p:]); ok {
				lines[i] = b[p:] + "\n"
				break
			}
		}
	}
	return strings.Join(lines, ""), n
}

func c12(w *W) {
	if w.Job.Kind == "vanish" {
		c12vanish(w)
		return
	}
	r := w.Rng
	quietStderr()
	useHook(w.Dir)
	useRec()
	time.Sleep(time.Duration(r.Int63n(int64(365 * 24 * time.Hour))))
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("e%d", ci)
		dir := filepath.Join(w.Dir, pfx)
		timed := r.Intn(3) == 0
		async := r.Intn(2) == 0
		prefix := r.Intn(3) == 0
		batch := pick(r, 1, 2, 7, 30)
		limit := pick(r, 600, 1500)
		second := pick(r, "memory", "vrec", "size", "size-async", "time")
		first := r.Intn(2) == 0
		base := "rf.log"
		pattern := ""
		if timed {
			pattern = "20060102-150405"
		}
		var hist []string
		note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }

		life := 0
		var healthy *Sink
		start := func() bool {
			life++
			b := (&Cfg{}).quietRoot(fmt.Sprintf("%sv%d", pfx, life))
			fn := fmt.Sprintf("%sf%d", pfx, life)
			b.format(fn, "%{msg}\n")
			b.format(pfx+"f", "%{msg}\n")
			on := fmt.Sprintf("%so%d", pfx, life)
			kv := []string{"file", filepath.Join(dir, base), "backups", "20", "name_mode", ifel(prefix, "prefix", "")}
			if async {
				kv = append(kv, "async", "true", "batch_num", fmt.Sprint(batch))
			}
			if timed {
				b.out(on, "time_rolling_file", fn, append(kv, "pattern", pattern)...)
			} else {
				b.out(on, "size_rolling_file", fn, append(kv, "size", fmt.Sprint(limit))...)
			}
			// keeps its name, so it goes on undisturbed
			healthy = addSink(w, b, second, pfx+"h", pfx+"f")
			outs := []string{on, healthy.name}
			if !first {
				outs = []string{healthy.name, on}
			}
			b.logger(pfx, "all", outs...)
			return loadSinks(w, b, []*Sink{healthy})
		}
		out := func() interface{ Close() } { return outputOf(w, pfx, map[bool]int{true: 0, false: 1}[first]) }

		var lastWrite atomic.Int64
		var calls sync.Map // recKey -> time of the call
		var lifeBegan time.Time
		var kinds atomic.Pointer[map[string]bool]
		var prob, rndState, injected, rotFails, torn, kept atomic.Int64
		rndState.Store(r.Int63())
		short := false
		cur := filepath.Join(dir, base)
		setHook(func(op, p, p2 string) error {
			if p != dir && !strings.HasPrefix(p, dir+"/") {
				return nil
			}
			k := op
			if op == "open" {
				k = "open " + p2
			}
			if m := kinds.Load(); m != nil && (*m)[k] {
				x := uint64(rndState.Add(0x632BE59BD9B4E019))
				x ^= x >> 29
				x *= 0xBF58476D1CE4E5B9
				x ^= x >> 32
				if int64(x%100) < prob.Load() {
					injected.Add(1)
					if k == "write" && short && p == cur {
						lastWrite.Store(time.Now().UnixNano())
					}
					switch k {
					case "rename", "readdir", "open r":
						rotFails.Add(1)
					case "write":
						torn.Add(1)
					case "remove":
						kept.Add(1)
					}
					return errInjected
				}
			}
			if op == "write" && p == cur {
				lastWrite.Store(time.Now().UnixNano())
			}
			return nil
		})
		if !start() {
			return
		}
		lg := getLogger(pfx)
		st := newStream()
		mayMiss := map[recKey]bool{}
		anyWriteFault := false
		seq, lastHealthy := 0, 0
		total := 0
		ok := true
		restart := func() bool {
			if timed && lastWrite.Load() > 0 {
				t := time.Unix(0, lastWrite.Load())
				os.Chtimes(cur, t, t)
			}
			// what was in the file then is taken as of the period of its last write
			lifeBegan = time.Now()
			return start()
		}
		// idle: everything accepted has been written (or lost)
		idle := func() {
			settle()
			if async {
				time.Sleep(12 * time.Second)
				settle()
			}
		}
		burst := func(risky bool) {
			gs := pick(r, 1, 1, 1, 3, 6)
			n := 1 + r.Intn(8)
			type job struct {
				k    recKey
				size int
			}
			js := make([][]job, gs)
			for g := range js {
				for i := 0; i < n; i++ {
					k := recKey{g, seq + i}
					size := pick(r, 0, 10, 60, 200)
					js[g] = append(js[g], job{k, size})
					total += size + 15
					if risky {
						mayMiss[k] = true
					}
				}
			}
			seq += n
			naps := make([]time.Duration, gs)
			for g := range naps {
				if timed {
					naps[g] = time.Duration(r.Intn(300)) * time.Millisecond
				}
			}
			run := func(g int) {
				for _, j := range js[g] {
					if naps[g] > 0 && !async {
						time.Sleep(naps[g])
					}
					calls.Store(j.k, time.Now())
					st.log(j.k, j.size, func(m string) { lg.Info(m) })
				}
			}
			if gs == 1 {
				run(0)
			} else {
				par(gs, run)
			}
			c := "records in healthy phases"
			if risky {
				c = "records in windows"
			} else if prob.Load() > 0 {
				c = "records in windows of failing rotations only"
			}
			w.Count(c, n*gs)
			note("%d*%d records", gs, n)
		}
		// caughtUp: a rotation that failed has been made up for by the records
		// of the healthy phase.
		caughtUp := func() {
			text := readFile(cur)
			if !timed {
				most := 230 // a record
				if async {
					most *= batch
				}
				w.Count("limits observed after a window", 1)
				if len(text) >= limit+most {
					w.Fail("rotation not made up for", "the file has %d bytes, limit %d: history %v", len(text), limit, hist)
				}
				return
			}
			if async {
				return
			}
			period := time.Unix(0, lastWrite.Load()).Format(pattern)
			w.Count("periods observed after a window", 1)
			for _, l := range strings.Split(text, "\n") {
				k, _, good := parseRec(l)
				if !good {
					continue
				}
				if v, found := calls.Load(k); found && v.(time.Time).After(lifeBegan) && v.(time.Time).Format(pattern) != period {
					w.Fail("rotation not made up for", "record %v of %s is in the current file, last written in %s: history %v", k, v.(time.Time).Format(pattern), period, hist)
					return
				}
			}
		}
		maxTotal := limit * 14
		phases := 3 + r.Intn(5)
		for ph := 0; ph < phases && ok && (timed || total < maxTotal); ph++ {
			// a window
			m := map[string]bool{}
			risky := r.Intn(2) == 0
			short = risky && r.Intn(2) == 0
			setShortWrite(short)
			for _, k := range rotOps {
				m[k] = r.Intn(3) > 0
			}
			if risky {
				for _, k := range writeOps {
					m[k] = r.Intn(2) == 0
				}
				anyWriteFault = true
			}
			obstacle := ""
			idle()
			if risky && r.Intn(5) == 0 {
				obstacle = pick(r, "directory", "no directory")
				// a new life meets the obstacle when it first opens the file
				out().Close()
				if _, err := os.Lstat(cur); err == nil {
					obstacle = ""
				} else if obstacle == "directory" {
					os.MkdirAll(cur, 0755)
				} else if _, err := os.Lstat(dir); err == nil {
					obstacle = ""
				} else {
					os.WriteFile(dir, nil, 0644)
				}
				if ok = restart(); !ok {
					break
				}
			}
			kinds.Store(&m)
			prob.Store(pick(r, int64(20), 60, 100, 100))
			var ks []string
			for k, on := range m {
				if on {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			note("window %v %d%% short=%v %s", ks, prob.Load(), short, obstacle)
			w.Count("windows", 1)
			for k := 1 + r.Intn(3); k > 0; k-- {
				burst(risky)
				if r.Intn(3) == 0 {
					idle()
				}
			}
			if r.Intn(6) == 0 {
				note("close")
				out().Close()
				w.Count("closed in a window", 1)
				if ok = restart(); !ok {
					break
				}
			} else {
				idle()
			}
			kinds.Store(nil)
			prob.Store(0)
			switch obstacle {
			case "directory":
				os.Remove(cur)
			case "no directory":
				os.Remove(dir)
			}
			note("healthy")
			lastHealthy = seq
			before := injected.Load()
			for k := 1 + r.Intn(3); k > 0; k-- {
				burst(false)
			}
			idle()
			if injected.Load() != before {
				fatal("failure outside a window")
			}
			w.Count("recoveries", 1)
			caughtUp()
			if async && r.Intn(3) == 0 {
				out().Close()
				if ok = restart(); !ok {
					break
				}
			}
		}
		if !ok {
			return
		}
		out().Close()
		healthy.out.Close()
		setHook(nil)
		rs, curText, err := rolledFiles(dir, base, pattern, prefix)
		text := ""
		if err == nil {
			text, err = wholeLog(rs, curText)
		}
		w.Count("injected failures", int(injected.Load()))
		w.Count("failed rotations", int(rotFails.Load()))
		desc := func() string {
			return fmt.Sprintf("case %d time=%v async=%v batch=%d size=%d prefix=%v second=%s: history %v; files %s", ci, timed, async, batch, limit, prefix, second, hist, rollsString(rs, curText))
		}
		if err != nil {
			w.Fail("log unreadable", "%v: %s", err, desc())
		}
		clean, frags := tidy(text)
		if frags > 0 && torn.Load() == 0 {
			w.Fail("record not whole", "%d cut records although no write failed: %s", frags, desc())
		}
		o := streamOpts{mayMiss: func(s *stamp) bool { return mayMiss[s.recKey] }}
		if len(rs) >= 20 { // possibly the oldest were dropped as configured
			o.oldestOK = true
			w.Count("cases with as many backups as allowed", 1)
			if kept.Load() > 0 { // some of those which should go are still there
				o.oldestOK = false
				o.mayMiss = func(s *stamp) bool { return mayMiss[s.recKey] || s.seq < lastHealthy-10 }
			}
		}
		if sig, msg, info := st.check(clean, nil, o); sig != "" {
			w.Fail(sig, "%s; %s", msg, desc())
		} else {
			w.Count("records missing or cut", info.missing)
			if info.missing > 0 && !anyWriteFault && !o.oldestOK {
				w.Fail("record lost", "%s", desc())
			}
		}
		if sig, msg, _ := st.check(healthy.content(nil), nil, streamOpts{}); sig != "" {
			w.Fail("other output affected: "+sig, "%s; %s", msg, desc())
		}
		key := ""
		if injected.Load() > 0 {
			key = hash(fmt.Sprint(timed, async, batch, limit, hist))
		}
		w.Eval(key)
		w.Sample("%s", desc())
		os.RemoveAll(dir)
	}
}
