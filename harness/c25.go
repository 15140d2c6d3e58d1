//go:build oshook

package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C25",
		Rule: "kind 'roll': one to four rolling outputs (size or time, synchronous or asynchronous, archive or not) log through many rotations with file operations failing in windows, closes and late records; kind 'reload': sequences of configurations which keep, change, remove and bring back outputs, with loads refused in between; kind 'syslog': the same with syslog outputs; kind 'race': outputs (files, syslog) replaced and closed by loads while records which take time to be formatted are on their way to them; kind 'heap': long repetitions of every operation over a fixed set of names. With the garbage collector off, the descriptors of the process (/proc/self/fd) are compared after every step with the current files of the outputs in use, its goroutines made by the library with the open asynchronous outputs, the temporary directories of archives with nothing, and the live heap after many repetitions with that after few. Distinct by history; non-trivial when a rotation, or a load replacing an open output, happened.",
		Assume: []string{
			"Linux (/proc/self/fd)",
			"a failing close releases the descriptor, as on Linux",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 12
			if th {
				n, c = 160, 60
			}
			b := map[string]int{"bubble": 1}
			js := jobs("roll", seed, n, c, b)
			js = append(js, jobs("reload", seed, n, c, b)...)
			js = append(js, jobs("syslog", seed, n/4, c, nil)...)
			js = append(js, jobs("race", seed, n, c, nil)...)
			return append(js, jobs("heap", seed, n/4, 1+c/12, b)...)
		},
		Worker: c25,
		Min:    map[string]int{"evaluations": 600, "steps with descriptors compared": 20000, "rotations": 5000, "archives": 1000, "injected failures": 2000, "asynchronous outputs replaced": 500, "open files replaced": 200, "syslog connections replaced": 100, "operations repeated": 20000, "late records": 100, "records on their way during a load": 2000, "outputs replaced while records were on their way": 500, "distinct": 400},
	})
}

// openFiles lists the descriptors of the process pointing into dir, and counts sockets.
func openFiles(dir string) (files []string, sockets int) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue
		}
		if strings.HasPrefix(l, dir+"/") {
			files = append(files, strings.TrimPrefix(l, dir+"/"))
		}
		if strings.HasPrefix(l, "socket:") {
			sockets++
		}
	}
	sort.Strings(files)
	return
}

// libGoroutines counts the goroutines started by the library.
func libGoroutines() (n int, stacks string) {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "created by "+libPkg) {
			n++
			stacks += g + "\n\n"
		}
	}
	return
}

func c25(w *W) {
	quietStderr()
	useRec()
	useHook(w.Dir)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	base, _ := libGoroutines()
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		switch w.Job.Kind {
		case "roll":
			c25roll(w, ci, base)
		case "reload":
			c25reload(w, ci, base)
		case "syslog":
			c25syslog(w, ci)
		case "race":
			c25race(w, ci)
		case "heap":
			c25heap(w, ci)
		}
		if w.Job.Kind != "heap" {
			runtime.GC()
		}
	}
}

func c25roll(w *W, ci, base int) {
	r := w.Rng
	pfx := fmt.Sprintf("q%d", ci)
	root := filepath.Join(w.Dir, pfx)
	var hist []string
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	b := (&Cfg{}).quietRoot(pfx)
	b.format(pfx+"f", "%{msg}\n")
	n := 1 + r.Intn(4)
	allowed := map[string]bool{}
	var outs []string
	asyncs := 0
	maxNap := time.Second
	for i := 0; i < n; i++ {
		rel := filepath.Join(fmt.Sprintf("d%d", i), pick(r, "rf.log", "app"))
		allowed[rel] = true
		kv := []string{"file", filepath.Join(root, rel), "backups", pick(r, "1", "2", "5"), "archive", pick(r, "", "zip", "gzip", "gzip"), "name_mode", pick(r, "", "prefix")}
		if r.Intn(3) == 0 {
			kv = append(kv, "async", "true", "batch_num", pick(r, "1", "3", "50"))
			asyncs++
		}
		name := fmt.Sprintf("%so%d", pfx, i)
		if r.Intn(3) == 0 {
			b.out(name, "time_rolling_file", pfx+"f", append(kv, "pattern", "20060102-150405")...)
			maxNap = 3 * time.Second
		} else {
			b.out(name, "size_rolling_file", pfx+"f", append(kv, "size", pick(r, "1", "100", "2K"))...)
		}
		outs = append(outs, name)
		note("%v", kv[2:])
	}
	b.logger(pfx, "all", outs...)

	var mu sync.Mutex
	kinds := map[string]bool{}
	prob, failures := 0, 0
	fr := rand.New(rand.NewSource(r.Int63()))
	setHook(func(op, p, p2 string) error {
		mu.Lock()
		defer mu.Unlock()
		k := op
		if op == "open" {
			k += " " + p2
		}
		if strings.Contains(p, ".log4g_tmp") && op == "remove" {
			return nil // else a temporary file may well remain
		}
		if kinds[k] && fr.Intn(100) < prob {
			failures++
			return errInjected
		}
		return nil
	})
	defer setHook(nil)
	if !b.load(w) {
		return
	}
	lg := getLogger(pfx)
	rotations, archives := 0, 0
	seen := map[string]bool{}
	check := func(closed bool) bool {
		settle()
		w.Count("steps with descriptors compared", 1)
		fs, _ := openFiles(root)
		bad := ""
		for i, f := range fs {
			switch {
			case !allowed[f]:
				bad = "open file which is no current file: " + f
			case i > 0 && fs[i-1] == f:
				bad = "current file open twice: " + f
			case closed:
				bad = "file open after the close: " + f
			}
		}
		if bad != "" {
			w.Fail("descriptor leak", "case %d: %s (open: %v); history %v", ci, bad, fs, hist)
			return false
		}
		want := base + asyncs
		if closed {
			want = base
		}
		if g, st := libGoroutines(); g > want {
			w.Fail("goroutine leak", "case %d: %d goroutines of the library, at most %d expected (%d asynchronous outputs, closed: %v); history %v\n%s", ci, g, want, asyncs, closed, hist, clip(st, 2000))
			return false
		}
		for i := 0; i < n; i++ {
			d := filepath.Join(root, fmt.Sprintf("d%d", i))
			es, _ := os.ReadDir(filepath.Join(d, ".log4g_tmp"))
			if len(es) > 0 {
				w.Fail("temporary file left", "case %d: %s/.log4g_tmp holds %d files; history %v", ci, d, len(es), hist)
				return false
			}
			es, _ = os.ReadDir(d)
			for _, e := range es {
				p := d + "/" + e.Name()
				if !e.IsDir() && !seen[p] {
					seen[p] = true
					if strings.HasSuffix(p, ".gz") || strings.HasSuffix(p, ".zip") {
						archives++
					} else {
						rotations++
					}
				}
			}
		}
		return true
	}
	ok := true
	for k := 0; k < 40 && ok; k++ {
		switch r.Intn(10) {
		case 0:
			ks := map[string]bool{}
			for _, x := range []string{"rename", "readdir", "open r", "open w", "remove", "chmod", "close", "write", "mkdir", "read"} {
				ks[x] = r.Intn(3) == 0
			}
			mu.Lock()
			kinds, prob = ks, pick(r, 20, 60, 100)
			mu.Unlock()
			note("failures %d%% %v", prob, ks)
		case 1, 2:
			mu.Lock()
			prob = 0
			mu.Unlock()
			note("no failures")
		case 3:
			time.Sleep(6 * time.Second)
			note("pause")
		default:
			m := 1 + r.Intn(4)
			for i := 0; i < m; i++ {
				lg.Info(recText(recKey{ci, k*10 + i}, pick(r, 0, 50, 300, 3000)))
				time.Sleep(time.Duration(r.Int63n(int64(maxNap))))
			}
			note("%d records", m)
		}
		ok = check(false)
	}
	if !ok {
		return
	}
	mu.Lock()
	prob = 0
	mu.Unlock()
	note("close")
	mgr().Close()
	if !check(true) {
		return
	}
	if r.Intn(2) == 0 { // late records may open files again, once
		for i := 0; i < 3; i++ {
			lg.Info("late")
		}
		w.Count("late records", 3)
		note("late records")
		if !check(false) {
			return
		}
		mgr().Close()
		note("close")
		if !check(true) {
			return
		}
	}
	setHook(nil)
	w.Count("rotations", rotations)
	w.Count("archives", archives)
	w.Count("injected failures", failures)
	key := ""
	if rotations > n {
		key = hash(fmt.Sprint("roll", hist))
	}
	w.Eval(key)
	w.Sample("%d outputs: %s", n, clip(strings.Join(hist, ", "), 700))
	os.RemoveAll(root)
}

func c25reload(w *W, ci, base int) {
	r := w.Rng
	x := newCfgWorld(w, fmt.Sprintf("w%d", ci))
	replaced := 0
	for l := 0; l < 12; l++ {
		prev := x.cur
		before, _ := openFiles(x.dir)
		c := x.next()
		x.note("load %s", cfgString(c))
		if err := mgr().SetConfig(cloneCfg(c)); err != nil {
			w.Fail("valid configuration refused", "%v; history %v", err, x.hist)
			return
		}
		x.cur = c
		x.mem = map[string]api.Output{}
		step := func(when string) bool {
			settle()
			w.Count("steps with descriptors compared", 1)
			may := map[string]bool{}
			asyncs := 0
			for _, o := range c.Outputs {
				if f := o["file"]; f != "" {
					may[strings.TrimPrefix(f, x.dir+"/")] = true
				}
				if o["async"] == "true" {
					asyncs++
				}
			}
			fs, _ := openFiles(x.dir)
			for i, f := range fs {
				if !may[f] || i > 0 && fs[i-1] == f {
					w.Fail("descriptor leak", "%s: %s is open (%v), the outputs in force have %v; history %v", when, f, fs, may, x.hist)
					return false
				}
			}
			if g, st := libGoroutines(); g > base+asyncs {
				w.Fail("goroutine leak", "%s: %d goroutines of the library, at most %d expected; history %v\n%s", when, g, base+asyncs, x.hist, clip(st, 2000))
				return false
			}
			return true
		}
		if !step("after a load") {
			return
		}
		if prev != nil {
			for _, o := range prev.Outputs {
				if !sameDef(prev, c, o.Name()) {
					if o["async"] == "true" {
						w.Count("asynchronous outputs replaced", 1)
						replaced++
					}
					for _, f := range before {
						if filepath.Join(x.dir, f) == o["file"] {
							w.Count("open files replaced", 1)
							replaced++
						}
					}
				}
			}
		}
		x.ready()
		x.burst(3+r.Intn(10), map[string]string{})
		if r.Intn(3) == 0 {
			x.flush()
		}
		if r.Intn(3) == 0 {
			ch, why, _ := x.bad()
			x.note("bad (%s) %s", why, ch.name)
			if err := ch.load(); err == nil {
				// what it does is not specified; go back
				if err := mgr().SetConfig(cloneCfg(c)); err != nil {
					w.Fail("valid configuration refused", "%v; history %v", err, x.hist)
					return
				}
				x.mem = map[string]api.Output{}
			}
		}
		if !step("after records") {
			return
		}
	}
	mgr().Close()
	x.note("close")
	settle()
	if fs, _ := openFiles(x.dir); len(fs) > 0 {
		w.Fail("descriptor leak", "open after closing the manager: %v; history %v", fs, x.hist)
		return
	}
	if g, st := libGoroutines(); g > base {
		w.Fail("goroutine leak", "%d goroutines of the library after closing the manager; history %v\n%s", g-base, x.hist, clip(st, 2000))
		return
	}
	if _, err := os.Stdout.Stat(); err != nil {
		w.Fail("standard output closed", "after closing the manager: %v", err)
		return
	}
	key := ""
	if replaced > 0 {
		key = hash(fmt.Sprint("reload", x.hist))
	}
	w.Eval(key)
	(&Cfg{}).quietRoot(x.pfx + "end").load(w)
	os.RemoveAll(x.dir)
}

func c25syslog(w *W, ci int) {
	r := w.Rng
	d := startSyslogd(filepath.Join(w.Dir, "log.sock"))
	defer d.stop()
	pfx := fmt.Sprintf("y%d", ci)
	_, s0 := openFiles(w.Dir)
	var hist []string
	held := 0
	for l := 0; l < 8; l++ {
		b := (&Cfg{}).quietRoot(fmt.Sprintf("%sl%d", pfx, l))
		b.format(pfx+"f", "%{msg}")
		n := r.Intn(4)
		var outs []string
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%so%d", pfx, i)
			b.out(name, "syslog", pfx+"f", "prefix", fmt.Sprintf("p%d", r.Intn(3)))
			outs = append(outs, name)
		}
		b.logger(pfx, "all", outs...)
		hist = append(hist, fmt.Sprint(b.c.Outputs))
		if !b.load(w) {
			return
		}
		getLogger(pfx).Info("x")
		_, s := openFiles(w.Dir)
		w.Count("steps with descriptors compared", 1)
		if s > s0+n {
			w.Fail("descriptor leak", "%d sockets are open, %d of them before; %d syslog outputs are in force; history %v", s, s0, n, hist)
			return
		}
		w.Count("syslog connections replaced", held)
		held = n
	}
	(&Cfg{}).quietRoot(pfx + "end").load(w)
	if _, s := openFiles(w.Dir); s > s0 {
		w.Fail("descriptor leak", "%d sockets are open, %d of them before; no syslog output is in force; history %v", s, s0, hist)
		return
	}
	w.Eval(hash(fmt.Sprint("syslog", hist)))
}

// c25heap repeats operations over a fixed set of names and compares the live heap.
func c25heap(w *W, ci int) {
	r := w.Rng
	pfx := fmt.Sprintf("h%d", ci)
	root := filepath.Join(w.Dir, pfx)
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fatal("%v", err)
	}
	old := os.Stdout
	os.Stdout = devnull
	defer func() { os.Stdout = old }()
	cfg := func(variant int) *Cfg {
		b := &Cfg{}
		b.format(pfx+"f", fmt.Sprintf("%%{time} %%{level} %%{k} %%{shortfile}:%%{line} %%{msg} %d\n", variant))
		b.format(pfx+"g", "%{time:2006-01-02 15:04:05} %{time:Jan _2 15:04:05.000} %{module:-12s} %{msg:10s} %{time:15:04}\n")
		b.out(pfx+"c", "console", pfx+"f")
		b.out(pfx+"a", "console", pfx+"g", "async", "true", "batch_num", "7")
		b.out(pfx+"s", "size_rolling_file", pfx+"f", "file", root+"/s/rf.log", "size", "500", "backups", "2")
		b.out(pfx+"z", "size_rolling_file", pfx+"g", "file", root+fmt.Sprintf("/z%d/rf.log", variant), "size", "5K", "backups", "2", "archive", pick(r, "zip", "gzip"), "async", "true", "batch_num", "3")
		b.out(pfx+"t", "time_rolling_file", pfx+"f", "file", root+"/t/rf.log", "pattern", "20060102-1504", "backups", "3")
		b.logger("root", "all", pfx+"c")
		b.logger(pfx+"a", "info", pfx+"a", pfx+"s")
		b.logger(pfx+"a/b", "", pfx+"z")
		b.logger(pfx+"a/c", "debug", pfx+"t", pfx+"c")
		return b
	}
	names := []string{"", pfx + "a", pfx + "a/b", pfx + "a/b/x.y", pfx + "a/c", pfx + "n"}
	ops := 0
	op := func() {
		ops++
		lg := getLogger(pick(r, names...))
		switch r.Intn(24) {
		case 0:
			lg.SetLevel(pick(r, levels...))
		case 1:
			lg.SetCallerSkip(0)
		case 2:
			if o, _, err := mgr().GetLoggerOutputs(pfx + "a/b"); err == nil && len(o) > 0 {
				lg.SetOutputs(o)
			}
		case 3:
			if r.Intn(3) == 0 {
				cfg(r.Intn(2)).load(w)
			}
		case 4:
			mgr().SetConfig(&api.Config{Outputs: []api.CfgOutput{{"name": "x", "format": "undefined"}}})
			mgr().LoadConfig([]byte("{"), "json")
		case 5:
			mgr().RegisterOutputCreator(pfx+"type", func(api.CfgOutput) (api.Output, error) { return nil, fmt.Errorf("no") })
		case 6:
			lg.WithCtx(context.WithValue(context.Background(), "k", r.Intn(100))).Warn("ctx", r.Intn(100))
		case 7, 8:
			lg.WithFields(api.Field{Key: "k", Value: r.Intn(1000)}, api.Field{Key: "k2", Value: "v"}).Infof("%d", r.Intn(100))
		case 9:
			time.Sleep(time.Duration(r.Intn(6000)) * time.Millisecond)
		case 10:
			if r.Intn(30) == 0 {
				mgr().Close()
			}
		default:
			lg.Errorf("%s %d", strings.Repeat("x", r.Intn(200)), r.Intn(1000))
			time.Sleep(time.Duration(r.Intn(3)) * time.Second)
		}
	}
	if !cfg(0).load(w) {
		return
	}
	live := func() (uint64, uint64) {
		cfg(0).load(w)
		cfg(1).load(w)
		for _, n := range names {
			l := getLogger(n)
			l.SetLevel(api.Info)
			l.Warn("x")
		}
		settle()
		for i := 0; i < 4; i++ {
			runtime.GC()
			settle()
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapObjects, m.HeapAlloc
	}
	const few, many = 1000, 6000
	for i := 0; i < few; i++ {
		op()
		if i%500 == 0 {
			runtime.GC()
		}
	}
	o1, b1 := live()
	// growth is judged when it goes on
	for round := 1; ; round++ {
		for i := 0; i < many; i++ {
			op()
			if i%500 == 0 {
				runtime.GC()
				progress.Add(1)
			}
		}
		o2, b2 := live()
		w.Count("operations repeated", many)
		do, db := int64(o2)-int64(o1), int64(b2)-int64(b1)
		if do <= many/6 && db <= 100*many {
			w.CountMax("growth in objects", int(do))
			w.CountMax("growth in bytes", int(db))
			break
		}
		if round == 3 {
			w.Fail("memory leak", "%d more operations left %d more objects (%d bytes) in the live heap, for the third time in succession", many, do, db)
			return
		}
		o1, b1 = o2, b2
	}
	w.Eval(hash(fmt.Sprint("heap", w.Job.Seed, ci)))
	(&Cfg{}).quietRoot(pfx + "end").load(w)
	os.RemoveAll(root)
	devnull.Close()
}

// c25race replaces outputs while records are on their way to them.
func c25race(w *W, ci int) {
	r := w.Rng
	d := startSyslogd(filepath.Join(w.Dir, fmt.Sprintf("l%d.sock", ci)))
	defer d.stop()
	pfx := fmt.Sprintf("c%d", ci)
	root := filepath.Join(w.Dir, pfx)
	if !(&Cfg{}).quietRoot(pfx + "begin").load(w) {
		return
	}
	_, s0 := openFiles(root)
	var hist []string
	nfiles, nsys := 1+r.Intn(3), r.Intn(2)
	cfg := func(l int) (b *Cfg, files map[string]bool, sockets int) {
		files = map[string]bool{}
		b = (&Cfg{}).quietRoot(fmt.Sprintf("%sl%d", pfx, l))
		b.format(pfx+"f", "%{msg}\n")
		var outs []string
		for i := 0; i < nfiles; i++ {
			if r.Intn(4) == 0 {
				continue
			}
			rel := fmt.Sprintf("d%d/rf.log", i)
			files[filepath.Dir(rel)] = true
			name := fmt.Sprintf("%so%d", pfx, i)
			kv := []string{"file", filepath.Join(root, rel), "backups", pick(r, "1", "5"), "name_mode", pick(r, "", "prefix")}
			if r.Intn(4) == 0 {
				kv = append(kv, "async", "true", "batch_num", pick(r, "1", "3"))
			}
			if r.Intn(3) == 0 {
				b.out(name, "time_rolling_file", pfx+"f", append(kv, "pattern", pick(r, "20060102-150405", "20060102"))...)
			} else {
				b.out(name, "size_rolling_file", pfx+"f", append(kv, "size", pick(r, "200", "2K", "1M"))...)
			}
			outs = append(outs, name)
		}
		for i := 0; i < nsys; i++ {
			if r.Intn(4) == 0 {
				continue
			}
			name := fmt.Sprintf("%ss%d", pfx, i)
			b.out(name, "syslog", pfx+"f", "prefix", fmt.Sprintf("p%d", r.Intn(3)))
			outs = append(outs, name)
			sockets++
		}
		r.Shuffle(len(outs), func(i, j int) { outs[i], outs[j] = outs[j], outs[i] })
		b.logger(pfx, "all", outs...)
		hist = append(hist, fmt.Sprint(b.c.Outputs))
		return
	}
	leaked := func(dirs map[string]bool, sockets int) string {
		fs, s := openFiles(root)
		seen := map[string]bool{}
		for _, f := range fs {
			// the record of a replaced output may have rolled the file of the new one
			dir := filepath.Dir(f)
			if !dirs[dir] || seen[dir] {
				return fmt.Sprintf("%s is open (%v)", f, fs)
			}
			seen[dir] = true
		}
		if s > s0+sockets {
			return fmt.Sprintf("%d sockets are open, %d of them before", s, s0)
		}
		return ""
	}
	b, files, sockets := cfg(0)
	if !b.load(w) {
		return
	}
	lg := getLogger(pfx)
	for l := 1; l <= 6 && !w.Failed(); l++ {
		var wg sync.WaitGroup
		gs := 1 + r.Intn(6)
		for g := 0; g < gs; g++ {
			var pauses []time.Duration
			for i := 0; i < 4; i++ {
				pauses = append(pauses, time.Duration(r.Intn(1500))*time.Microsecond)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range pauses {
					lg.Info(slowText{"text", p})
				}
			}()
		}
		time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
		replaced := len(files) + sockets
		closing := r.Intn(4) == 0
		if closing {
			mgr().Close()
			hist = append(hist, "close")
		}
		var now *Cfg
		now, files, sockets = cfg(l)
		ok := now.load(w)
		wg.Wait()
		if !ok {
			return
		}
		w.Count("records on their way during a load", gs)
		w.Count("outputs replaced while records were on their way", replaced)
		w.Count("steps with descriptors compared", 1)
		// an asynchronous output may be writing right now; what is leaked stays
		bad := ""
		for try := 0; try < 100; try++ {
			if bad = leaked(files, sockets); bad == "" {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		if bad != "" {
			w.Fail("descriptor leak", "%s; %d syslog outputs and the files of %v are in force; history %v", bad, sockets, files, hist)
			return
		}
		progress.Add(1)
	}
	(&Cfg{}).quietRoot(pfx + "end").load(w)
	if fs, s := openFiles(root); len(fs) > 0 || s > s0 {
		w.Fail("descriptor leak", "%v and %d sockets are open, %d of them before; no output is in force; history %v", fs, s, s0, hist)
		return
	}
	w.Eval(hash(fmt.Sprint("race", hist)))
	os.RemoveAll(root)
}
