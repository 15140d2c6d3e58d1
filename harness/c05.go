package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "a case creates 1-3 outputs (mostly asynchronous, into a file, a slow or blocked pipe, or rolling files), logs from 0-8 goroutines and closes in one of the scenarios: immediately after creation, after logging, during logging, by several closers at once, repeatedly, through the output itself, through Manager.Close, by replacing the configuration, by SIGTERM or SIGINT, with a full queue and a stalled destination, and under a virtual clock with a destination that takes from nothing to days for what is waiting; logging goes on after the close. Oracles: no panic, no call blocked forever, every record whose call returned before the first close began is at its destination when a close returns, per goroutine the written records are a gap-free prefix, whole, no duplicate. Distinct by scenario, fill level and outcome; non-trivial when records were pending or in flight at the close.",
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c := 3, 150
			if th {
				n, c = 20, 500
			}
			for _, p := range []int{1, 2, 8} {
				for _, k := range []string{"plain", "racing", "stalled", "output", "reload"} {
					js = append(js, jobs(k, seed+int64(p), n, c, map[string]int{"procs": p})...)
				}
			}
			sn := 12
			if th {
				sn = 60
			}
			for i := 0; i < sn; i++ {
				js = append(js, jobs(fmt.Sprintf("signal%d", i), seed, 1, 1, map[string]int{"procs": 1 + i%4, "signal": 1 + i%2})...)
			}
			sn, sc := 8, 40
			if th {
				sn, sc = 64, 200
			}
			js = append(js, slowJobs(seed, sn, sc)...)
			return js
		},
		Worker:  c05,
		Timeout: 90 * time.Second,
		Min:     map[string]int{"evaluations": 500, "records before close": 20000, "records racing with close": 1000, "concurrent closes": 500, "distinct": 100, "signals": 6, "slow closes waiting over a second": 100, "slow closes waiting over an hour": 20, "closed by a signal alone": 1},
	})
}

func c05(w *W) {
	if w.Job.Kind == "slow" {
		slowWorkers["C05"](w)
		return
	}
	gomaxprocs(w)
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		c05case(w, ci)
	}
}

func c05case(w *W, ci int) {
	r := w.Rng
	kind := w.Job.Kind
	if strings.HasPrefix(kind, "signal") {
		kind = "signal"
	}
	pfx := fmt.Sprintf("z%d", ci)
	b := (&Cfg{}).quietRoot(pfx)
	b.format(pfx+"f", "%{msg}\n")
	queue := pick(r, 1, 2, 5, 20, 100, 1000)
	batch := pick(r, 1, 2, 3, 20, 100, 500)
	kv := func() []string {
		return []string{"async", "true", "queue_size", fmt.Sprint(queue), "batch_num", fmt.Sprint(batch)}
	}
	G := pick(r, 0, 1, 2, 4, 8)
	per := pick(r, 1, 5, queue, 40, 200)
	if kind == "stalled" || kind == "racing" || kind == "reload" {
		G = 1 + r.Intn(8)
	}
	size := pick(r, 0, 20, 20, 500)
	if kind == "stalled" {
		size = pick(r, 20, 3000) // fills the pipe
	}
	rotSize := 4096 + G*per*(size+40)/12 // few enough rotations for 20 backups
	// outputs
	type dst struct {
		kind    string
		async   bool
		read    func() string
		release func()
		name    string
	}
	var ds []dst
	dir := filepath.Join(w.Dir, pfx)
	var so *os.File
	first := "file"
	if kind == "stalled" {
		first = "pipe"
	} else if r.Intn(3) == 0 {
		first = "size"
	}
	kinds := []string{first}
	for len(kinds) < 1+r.Intn(3) {
		kinds = append(kinds, pick(r, "size", "time", "rotate", "memory", "sizesync"))
	}
	unstall := make(chan struct{})
	var once sync.Once
	release := func() { once.Do(func() { close(unstall) }) }
	for i, k := range kinds {
		name := fmt.Sprintf("%so%d", pfx, i)
		file := filepath.Join(dir, name, "rf.log")
		switch k {
		case "file":
			fn := filepath.Join(w.Dir, name+".out")
			f, _ := os.OpenFile(fn, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
			so = f
			b.out(name, "console", pfx+"f", kv()...)
			ds = append(ds, dst{k, true, func() string { return readFile(fn) }, func() { f.Close(); os.Remove(fn) }, name})
		case "pipe":
			pr, pw, err := os.Pipe()
			if err != nil {
				fatal("%v", err)
			}
			so = pw
			b.out(name, "console", pfx+"f", kv()...)
			var mu sync.Mutex
			var sb strings.Builder
			end := make(chan struct{})
			go func() {
				defer close(end)
				<-unstall
				buf := make([]byte, 1<<16)
				for {
					k, err := pr.Read(buf)
					mu.Lock()
					sb.Write(buf[:k])
					mu.Unlock()
					if err != nil {
						return
					}
				}
			}()
			ds = append(ds, dst{k, true, func() string {
				// everything written is in the pipe or was read: a marker tells where
				pw.Write([]byte("END\n"))
				for {
					mu.Lock()
					s := sb.String()
					mu.Unlock()
					if strings.HasSuffix(s, "END\n") {
						return strings.ReplaceAll(s, "END\n", "")
					}
					time.Sleep(100 * time.Microsecond)
				}
			}, func() { release(); pw.Close(); <-end; pr.Close() }, name})
		case "size", "time", "rotate", "sizesync":
			a := kv()
			if k == "sizesync" {
				a = nil
			}
			switch k {
			case "time":
				b.out(name, "time_rolling_file", pfx+"f", append(a, "file", file, "pattern", "2006")...)
			case "rotate":
				b.out(name, "size_rolling_file", pfx+"f", append(a, "file", file, "size", fmt.Sprint(rotSize), "backups", "20")...)
			default:
				b.out(name, "size_rolling_file", pfx+"f", append(a, "file", file, "size", "1G")...)
			}
			ds = append(ds, dst{k, k != "sizesync", func() string { s, _ := sizeStream(filepath.Dir(file), "rf.log", false); return s }, func() {}, name})
		case "memory":
			b.out(name, "memory", pfx+"f")
			lname := pfx + "l0"
			idx := i
			var op api.Output
			ds = append(ds, dst{k, false, func() string {
				if op == nil {
					op = outputOf(w, lname, idx)
				}
				return memText(op)
			}, func() {}, name})
		}
	}
	var on []string
	for _, d := range ds {
		on = append(on, d.name)
	}
	nl := 1 + r.Intn(3)
	for i := 0; i < nl; i++ {
		b.logger(fmt.Sprintf("%sl%d", pfx, i), "all", on...)
	}
	useRec()
	b.out(pfx+"rec", "vrec", pfx+"f").logger(pfx+"rl", "all", pfx+"rec")
	getLogger(pfx + "rl")
	ok := false
	load := func() { ok = b.load(w) && outputOf(w, pfx+"l0", 0) != nil }
	if so != nil {
		withStdout(so, load)
	} else {
		load()
	}
	if !ok {
		return
	}
	var ops []api.Output
	for i := range ds {
		o := outputOf(w, pfx+"l0", i)
		if ds[i].kind == "memory" {
			ds[i].read() // keep the output
		}
		ops = append(ops, o)
	}
	var closing atomic.Int64 // clock when the first close began
	closing.Store(1 << 62)
	closeFns := []func(){func() { mgr().Close() }}
	switch kind {
	case "output":
		closeFns = []func(){func() {
			for _, o := range ops {
				o.Close()
			}
		}, func() { mgr().Close() }}
	case "reload":
		closeFns = []func(){func() { (&Cfg{}).quietRoot(pfx + "n").load(w) }}
	}
	doClose := func(i int) {
		t := tick()
		for {
			c := closing.Load()
			if t >= c || closing.CompareAndSwap(c, t) {
				break
			}
		}
		closeFns[i%len(closeFns)]()
	}
	st := newStream()
	loggers := make([]api.Logger, nl)
	for i := range loggers {
		loggers[i] = getLogger(fmt.Sprintf("%sl%d", pfx, i))
	}
	calls := make([][]int, G)
	for g := range calls {
		for k := 0; k < per; k++ {
			calls[g] = append(calls[g], r.Intn(len(logCalls))*16+r.Intn(nl))
		}
	}
	logOne := func(g, k int) {
		c := calls[g][k]
		st.log(recKey{g, k}, size, func(m string) { logCalls[c/16].f(loggers[c%16], m) })
	}
	after := func() { // logging after the close neither panics nor blocks
		for k := 0; k < 3; k++ {
			loggers[r.Intn(nl)].Info("late")
		}
	}
	snap := func() []string {
		var ss []string
		for _, d := range ds {
			ss = append(ss, d.read())
		}
		return ss
	}
	var texts []string
	closers := 1
	concurrent := kind == "racing" || kind == "reload" || kind == "stalled" || kind == "output" && r.Intn(2) == 0
	switch {
	case kind == "signal":
		par(G, func(g int) {
			for k := 0; k < per; k++ {
				logOne(g, k)
			}
		})
		closing.Store(tick())
		sig := syscall.SIGTERM
		if w.Job.P["signal"] == 2 {
			sig = syscall.SIGINT
		}
		var wg sync.WaitGroup
		if r.Intn(2) == 0 { // logging races with the signal
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 100; k++ {
					loggers[0].Info("late")
				}
			}()
		}
		syscall.Kill(os.Getpid(), sig)
		if r.Intn(2) == 0 { // the signal alone closes the outputs
			rec := recOf(pfx + "rec")
			closed := func() bool { rec.mu.Lock(); defer rec.mu.Unlock(); return rec.closed > 0 }
			for i := 0; i < 400 && !closed(); i++ {
				time.Sleep(100 * time.Millisecond)
			}
			if !closed() {
				w.Fail("signal does not close", "40 s after %v the outputs are not closed", sig)
			}
			w.Count("closed by a signal alone", 1)
		}
		mgr().Close()
		if kinds[0] != "pipe" && r.Intn(2) == 0 {
			syscall.Kill(os.Getpid(), sig)
		}
		wg.Wait()
		w.Count("signals", 1)
		texts = snap()
	case concurrent:
		closers = 1 + r.Intn(4)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		trigger := r.Intn(per*G + 1)
		var logged atomic.Int64
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-gate
				for k := 0; k < per; k++ {
					logOne(g, k)
					logged.Add(1)
				}
				loggers[g%nl].Info("late")
			}(g)
		}
		if kind == "stalled" {
			time.AfterFunc(time.Duration(1+r.Intn(5))*time.Millisecond, release)
			trigger = 0
		}
		var cw sync.WaitGroup
		for c := 0; c < closers; c++ {
			cw.Add(1)
			spin := r.Intn(3000)
			stalled := kind == "stalled"
			go func(c int) {
				defer cw.Done()
				<-gate
				if stalled {
					time.Sleep(time.Duration(spin) * time.Microsecond)
				}
				for logged.Load() < int64(trigger) {
					time.Sleep(time.Microsecond)
				}
				for i := 0; i < spin; i++ {
					clock.Load()
				}
				doClose(c)
			}(c)
		}
		close(gate)
		cw.Wait()
		w.Count("concurrent closes", closers)
		wg.Wait()
		texts = snap()
	default: // plain
		if r.Intn(2) == 0 && G > 0 {
			par(G, func(g int) {
				for k := 0; k < per; k++ {
					logOne(g, k)
				}
			})
		} else {
			for g := 0; g < G; g++ {
				for k := 0; k < per; k++ {
					logOne(g, k)
				}
			}
		}
		if r.Intn(3) == 0 {
			closers = 1 + r.Intn(3)
			var mu sync.Mutex
			par(closers, func(c int) {
				doClose(c)
				mu.Lock()
				defer mu.Unlock()
				texts = append(texts, snap()...) // each close returns only after everything is written
			})
			w.Count("concurrent closes", closers)
		} else {
			doClose(0)
			texts = snap()
			if kind == "output" {
				doClose(1)
			}
		}
	}
	after()
	if r.Intn(2) == 0 {
		doClose(0)
		after()
	}
	pending, racing := 0, 0
	nd := len(ds)
	for i, text := range texts {
		d := ds[i%nd]
		cl := closing.Load()
		var clean strings.Builder
		for _, l := range strings.SplitAfter(text, "\n") {
			if l != "late\n" {
				clean.WriteString(l)
			}
		}
		may := func(x *stamp) bool { return x.ret > cl && (d.async || kind == "reload") }
		sig, msg, info := st.check(clean.String(), nil, streamOpts{mayMiss: may, prefix: kind != "reload"})
		if sig != "" {
			w.Fail(sig, "case %d scenario %s output %s (%s) queue_size=%d batch_num=%d %d goroutines x %d records, %d closers, close began at t=%d: %s", ci, w.Job.Kind, d.name, d.kind, queue, batch, G, per, closers, cl, msg)
		}
		pending += info.present
		racing += info.missing
	}
	cl := closing.Load()
	for _, x := range st.all {
		if x.ret < cl {
			w.Count("records before close", 1)
		} else {
			w.Count("records racing with close", 1)
		}
	}
	for _, d := range ds {
		d.release()
	}
	os.RemoveAll(dir)
	key := ""
	if len(st.all) > 0 {
		key = fmt.Sprintf("%s %v q%d b%d G%d n%d c%d %d", kind, kinds, queue, batch, G, per, closers, racing)
	}
	w.Eval(key)
	w.Sample("%s outputs %v queue_size=%d batch_num=%d: %d goroutines x %d records of %d bytes, %d closers; %d records written, %d refused by the close", kind, kinds, queue, batch, G, per, size, closers, pending, racing)
}
