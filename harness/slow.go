//go:build oshook

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
)

// Destinations that take long: under the virtual clock every write of the library to a
// destination file first takes a virtual time, from nothing to hours, so that timers fire,
// queues fill and closes begin while a write is under way.
//
// A goroutine waiting for a mutex stops virtual time, so only asynchronous outputs are
// used (their destination is written by one goroutine), and outputs are closed by one
// goroutine when no logging call is blocked.

func init() {
	slowWorkers["C04"] = slowC04
	slowWorkers["C05"] = slowC05
	slowWorkers["C13"] = slowC13
}

// slowDisk makes writes take long and returns a function giving what happened.
func slowDisk(r *rand.Rand, style int) func() (writes int, took time.Duration) {
	var mu sync.Mutex
	rr := rand.New(rand.NewSource(r.Int63()))
	writes, total := 0, time.Duration(0)
	setHook(func(op, path, path2 string) error {
		if op != "write" {
			return nil
		}
		mu.Lock()
		writes++
		var d time.Duration
		switch style {
		case 0: // mostly fast, now and then a stall
			if rr.Intn(4) == 0 {
				d = time.Duration(rr.Intn(20000)) * time.Millisecond
			}
		case 1: // steadily slow
			d = time.Duration(rr.Intn(3000)) * time.Millisecond
		case 2: // as long as the flush interval, or about
			d = pick(rr, 4999*time.Millisecond, 5*time.Second, 5001*time.Millisecond, 10*time.Second, 0)
		case 3: // hangs
			if rr.Intn(3) == 0 {
				d = time.Duration(rr.Intn(72)) * time.Hour
			}
		}
		total += d
		mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		return nil
	})
	return func() (int, time.Duration) {
		setHook(nil)
		mu.Lock()
		defer mu.Unlock()
		return writes, total
	}
}

// slowDst adds an asynchronous output to the configuration.
type slowDst struct {
	kind, name string
	so         *os.File
	read       func() string
}

func addSlowDst(w *W, b *Cfg, kind, name, format string, kv ...string) *slowDst {
	d := &slowDst{kind: kind, name: name}
	dir := filepath.Join(w.Dir, name)
	os.Mkdir(dir, 0755)
	file := filepath.Join(dir, "rf.log")
	kv = append([]string{"async", "true"}, kv...)
	d.read = func() string { return readFile(file) }
	switch kind {
	case "console":
		f, err := os.OpenFile(file, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			fatal("%v", err)
		}
		d.so = f
		b.out(name, "console", format, kv...)
	case "size":
		b.out(name, "size_rolling_file", format, append(kv, "file", file, "size", "1G")...)
	case "rotate":
		b.out(name, "size_rolling_file", format, append(kv, "file", file, "size", "200K", "backups", "20")...)
		d.read = func() string { s, _ := sizeStream(dir, "rf.log", false); return s }
	case "time":
		b.out(name, "time_rolling_file", format, append(kv, "file", file, "pattern", "2006", "backups", "20")...)
		d.read = func() string { return timeStream(dir, "rf.log", "2006") }
	}
	return d
}

func (d *slowDst) close(w *W) {
	if d.so != nil {
		d.so.Close()
	}
	os.RemoveAll(filepath.Join(w.Dir, d.name))
}

// loadSlow loads the configuration and has logger's outputs created.
func loadSlow(w *W, b *Cfg, logger string, ds []*slowDst) bool {
	ok := false
	load := func() { ok = b.load(w) && outputOf(w, logger, 0) != nil }
	for _, d := range ds {
		if d.so != nil {
			withStdout(d.so, load)
			return ok
		}
	}
	load()
	return ok
}

func slowC04(w *W) {
	r := w.Rng
	useHook(w.Dir)
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("s%d", ci)
		b := (&Cfg{}).quietRoot(pfx)
		b.format(pfx+"f", "%{msg}\n")
		queue := pick(r, 1, 2, 3, 7, 20, 100, 1000)
		batch := pick(r, 1, 2, 3, 10, 20, 100, 500)
		d := addSlowDst(w, b, pick(r, "console", "size", "time", "rotate"), pfx+"o", pfx+"f", "queue_size", fmt.Sprint(queue), "batch_num", fmt.Sprint(batch))
		nl := 1 + r.Intn(3)
		var ls []api.Logger
		for i := 0; i < nl; i++ {
			b.logger(fmt.Sprintf("%sl%d", pfx, i), "all", d.name)
		}
		if !loadSlow(w, b, pfx+"l0", []*slowDst{d}) {
			return
		}
		for i := 0; i < nl; i++ {
			ls = append(ls, getLogger(fmt.Sprintf("%sl%d", pfx, i)))
		}
		G := pick(r, 1, 1, 2, 4, 8)
		per := pick(r, 5, 20, 60)
		// pauses: none, short, multiples of the flush interval
		naps := make([][]time.Duration, G)
		for g := range naps {
			for k := 0; k < per; k++ {
				var nap time.Duration
				switch r.Intn(8) {
				case 0:
					nap = time.Duration(r.Intn(6000)) * time.Millisecond
				case 1:
					nap = time.Duration(1+r.Intn(3)) * 5 * time.Second
				case 2: // to the next multiple of five seconds
					nap = -1
				case 3:
					nap = time.Duration(r.Intn(30)) * time.Second
				}
				naps[g] = append(naps[g], nap)
			}
		}
		size := pick(r, 10, 300, 3000)
		style := r.Intn(4)
		stop := slowDisk(r, style)
		st := newStream()
		start := time.Now()
		par(G, func(g int) {
			for k := 0; k < per; k++ {
				nap := naps[g][k]
				if nap < 0 {
					nap = 5*time.Second - time.Since(start)%(5*time.Second)
				}
				if nap > 0 {
					time.Sleep(nap)
				}
				st.log(recKey{g, k}, (k*37+g*11)%size, func(m string) { ls[(g+k)%nl].Info(m) })
			}
		})
		mgr().Close()
		took := time.Since(start)
		writes, slept := stop()
		sig, msg, info := st.check(d.read(), nil, streamOpts{})
		if sig != "" {
			w.Fail(sig, "case %d slow %s queue_size=%d batch_num=%d goroutines=%d x %d, %d writes taking %v in all: %s", ci, d.kind, queue, batch, G, per, writes, slept, msg)
		}
		w.Count("slow records", info.present)
		w.Count("slow writes", writes)
		key := ""
		if writes > 1 && slept > 0 {
			key = fmt.Sprintf("slow %s/%d/%d/%d/%x", d.kind, queue, batch, writes, info.order)
		}
		w.Eval(key)
		w.Sample("slow %s queue_size=%d batch_num=%d: %d goroutines x %d records in %v (virtual), %d writes taking %v, %d present", d.kind, queue, batch, G, per, took, writes, slept, info.present)
		d.close(w)
	}
}

func slowC05(w *W) {
	r := w.Rng
	useHook(w.Dir)
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("s%d", ci)
		b := (&Cfg{}).quietRoot(pfx)
		b.format(pfx+"f", "%{msg}\n")
		queue := pick(r, 1, 5, 20, 100, 1000)
		batch := pick(r, 1, 2, 3, 20, 100, 500)
		kinds := []string{"console", "size", "time", "rotate"}
		r.Shuffle(4, func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		var ds []*slowDst
		var names []string
		for i := 0; i < 1+r.Intn(3); i++ {
			d := addSlowDst(w, b, kinds[i], fmt.Sprintf("%so%d", pfx, i), pfx+"f", "queue_size", fmt.Sprint(queue), "batch_num", fmt.Sprint(batch))
			ds = append(ds, d)
			names = append(names, d.name)
		}
		b.logger(pfx, "all", names...)
		if !loadSlow(w, b, pfx, ds) {
			return
		}
		lg := getLogger(pfx)
		var ops []api.Output
		for i := range ds {
			ops = append(ops, outputOf(w, pfx, i))
		}
		n := pick(r, 1, queue, queue+1, 2*queue, 3*batch+1)
		style := r.Intn(4)
		stop := slowDisk(r, style)
		st := newStream()
		G := 1 + r.Intn(4)
		par(G, func(g int) {
			for k := g; k < n; k += G {
				st.log(recKey{g, k / G}, 20, func(m string) { lg.Info(m) })
			}
		})
		how := pick(r, "manager", "output", "reload")
		t0 := time.Now()
		switch how {
		case "manager":
			mgr().Close()
		case "output":
			for _, i := range r.Perm(len(ops)) {
				ops[i].Close()
				text := ds[i].read() // no other output need be done
				if sig, msg, _ := st.check(text, nil, streamOpts{}); sig != "" {
					w.Fail(sig, "case %d after Output.Close of slow %s, %v later, queue_size=%d batch_num=%d %d records: %s", ci, ds[i].kind, time.Since(t0), queue, batch, n, msg)
				}
			}
		case "reload":
			(&Cfg{}).quietRoot(pfx + "n").load(w)
		}
		took := time.Since(t0)
		for _, d := range ds {
			if sig, msg, _ := st.check(d.read(), nil, streamOpts{}); sig != "" {
				w.Fail(sig, "case %d closed by %s in %v, slow %s queue_size=%d batch_num=%d %d records: %s", ci, how, took, d.kind, queue, batch, n, msg)
			}
		}
		lg.Info("late")
		mgr().Close()
		writes, slept := stop()
		w.Count("slow closes", 1)
		if took > time.Second {
			w.Count("slow closes waiting over a second", 1)
		}
		if took > time.Hour {
			w.Count("slow closes waiting over an hour", 1)
		}
		key := ""
		if took > 0 {
			key = fmt.Sprintf("slow %s %v %d %d %d %v", how, kinds[:len(ds)], queue, batch, n, took)
		}
		w.Eval(key)
		w.Sample("slow outputs %v queue_size=%d batch_num=%d: %d records, closed by %s in %v (virtual; %d writes taking %v)", strings.Join(kinds[:len(ds)], ","), queue, batch, n, how, took, writes, slept)
		for _, d := range ds {
			d.close(w)
		}
	}
}

// slowC13: records written much later than they were logged show when they were logged,
// at which level, by which logger and with which fields.
func slowC13(w *W) {
	r := w.Rng
	useHook(w.Dir)
	const tl = "2006-01-02T15:04:05.000000000"
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("s%d", ci)
		b := (&Cfg{}).quietRoot(pfx)
		kinds := []string{"console", "size", "time", "rotate"}
		r.Shuffle(4, func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		var ds []*slowDst
		var names []string
		for i := 0; i < 1+r.Intn(3); i++ {
			f := fmt.Sprintf("%sf%d", pfx, i)
			b.format(f, "%{msg} %{time:"+tl+"} %{level} %{module} %{u} "+pick(r, "", "%{time} ", "%{lvl} ")+"\x01\n")
			d := addSlowDst(w, b, kinds[i], fmt.Sprintf("%so%d", pfx, i), f, "queue_size", pick(r, "1", "3", "20", "1000"), "batch_num", pick(r, "1", "2", "10", "500"))
			ds = append(ds, d)
			names = append(names, d.name)
		}
		b.logger(pfx, "all", names...)
		if !loadSlow(w, b, pfx, ds) {
			return
		}
		lg, child := getLogger(pfx), getLogger(pfx+"/c")
		style := r.Intn(4)
		stop := slowDisk(r, style)
		type rec struct {
			from, to, rest string
			blocked        bool
		}
		G := pick(r, 1, 2, 5)
		per := pick(r, 5, 20, 60)
		seeds := make([]int64, G)
		for g := range seeds {
			seeds[g] = r.Int63()
		}
		rs := make([]map[string]rec, G)
		par(G, func(g int) {
			r := rand.New(rand.NewSource(seeds[g]))
			rs[g] = map[string]rec{}
			for k := 0; k < per; k++ {
				time.Sleep(pick(r, 0, time.Duration(r.Intn(5000))*time.Nanosecond, time.Duration(r.Intn(3000))*time.Millisecond, time.Duration(r.Intn(100))*time.Second))
				l, name := lg, pfx
				if r.Intn(3) == 0 {
					l, name = child, pfx+"/c"
				}
				id := fmt.Sprintf("m%d.%d", g, k)
				c := pick(r, logCalls...)
				t0 := time.Now()
				c.f(l.WithFields(api.Field{Key: "u", Value: g*1000 + k}), id)
				t1 := time.Now()
				rs[g][id] = rec{t0.Format(tl), t1.Format(tl), fmt.Sprintf("%s %s %d", levelNames[c.lvl], name, g*1000+k), !t0.Equal(t1)}
			}
		})
		mgr().Close()
		_, slept := stop()
		for _, d := range ds {
			n := 0
			for _, line := range strings.Split(d.read(), "\x01\n") {
				if line == "" {
					continue
				}
				n++
				fs := strings.SplitN(line, " ", 6)
				var g, k int
				if len(fs) < 6 {
					w.Fail("wrong text", "case %d slow %s: %q", ci, d.kind, line)
					break
				}
				if _, err := fmt.Sscanf(fs[0], "m%d.%d", &g, &k); err != nil || g >= G {
					w.Fail("wrong text", "case %d slow %s: %q", ci, d.kind, line)
					break
				}
				x := rs[g][fs[0]]
				if fs[1] < x.from || fs[1] > x.to || strings.Join(fs[2:5], " ") != x.rest {
					w.Fail("wrong text", "case %d slow %s: record %q, logged between %s and %s with %s", ci, d.kind, line, x.from, x.to, x.rest)
					break
				}
				if x.blocked {
					w.Count("slow records whose call waited", 1)
				}
			}
			w.Count("slow records", n)
		}
		key := ""
		if slept > 0 {
			key = fmt.Sprintf("slow %v %d %d %d %v", kinds[:len(ds)], G, per, style, slept)
		}
		w.Eval(key)
		w.Sample("slow outputs %v: %d goroutines x %d records, writes taking %v in all", kinds[:len(ds)], G, per, slept)
		for _, d := range ds {
			d.close(w)
		}
	}
}
