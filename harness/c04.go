package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C04",
		Rule: "a case sends records of 1-16 producer goroutines through 1-4 loggers sharing an asynchronous output (console into a file or a slow pipe, size or time rolling file) with random queue_size, batch_num (also out of range), threshold, record sizes and stalls of the destination; slow cases run under a virtual clock with a disk whose writes take from nothing to days; the destination must hold every enabled record exactly once, whole, per-goroutine in order and in real-time order (logical clock stamps around each call). Non-trivial when at least two goroutines' records are interleaved at the destination; distinct by configuration and destination order.",
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c := 3, 100
			if th {
				n, c = 16, 400
			}
			for _, p := range []int{1, 2, 4, 8} {
				for _, k := range []string{"file", "pipe", "roll"} {
					js = append(js, jobs(k, seed+int64(p), n, c, map[string]int{"procs": p})...)
				}
			}
			sn, sc := 8, 40
			if th {
				sn, sc = 64, 200
			}
			js = append(js, slowJobs(seed, sn, sc)...)
			return js
		},
		Worker: c04,
		Min:    map[string]int{"evaluations": 300, "records": 50000, "producer switches": 5000, "cases with more records than queue slots": 50, "slow records": 5000, "slow writes": 2000, "cases with values out of range": 50, "distinct": 100},
	})
}

func c04(w *W) {
	if w.Job.Kind == "slow" {
		slowWorkers["C04"](w)
		return
	}
	gomaxprocs(w)
	r := w.Rng
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("a%d", ci)
		b := (&Cfg{}).quietRoot(pfx)
		b.format(pfx+"f", "%{lvl}/%{module}\t%{msg}\n")
		queue := pick(r, 1, 2, 3, 7, 20, 100, 1000)
		batch := pick(r, 1, 2, 3, 10, 20, 100, 500)
		thr := pick(r, api.All, api.All, api.Info, api.Error)
		kv := []string{"async", "true", "queue_size", fmt.Sprint(queue), "batch_num", fmt.Sprint(batch), "threshold", levelNames[thr]}
		if r.Intn(4) == 0 { // defaults
			kv = []string{"async", "true", "threshold", levelNames[thr]}
			queue, batch = 1000, 20
		} else if r.Intn(8) == 0 { // values out of range give some valid size
			q, n := pick(r, "0", "-1", "", "many", "1000000", "1000000000000000", "9223372036854775807"), pick(r, "0", "-7", "", "x", "501", "1000000", "9223372036854775807")
			kv[3], kv[5] = q, n
			queue = 100000
			w.Count("cases with values out of range", 1)
		}
		var read func() string
		file := filepath.Join(w.Dir, pfx+".out")
		var so *os.File
		switch w.Job.Kind {
		case "file":
			f, err := os.OpenFile(file, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
			if err != nil {
				fatal("%v", err)
			}
			so = f
			b.out(pfx+"o", "console", pfx+"f", kv...)
			read = func() string { f.Close(); return readFile(file) }
		case "pipe":
			pr, pw, err := os.Pipe()
			if err != nil {
				fatal("%v", err)
			}
			so = pw
			b.out(pfx+"o", "console", pfx+"f", kv...)
			ch := make(chan string, 1)
			stall := r.Intn(3)
			chunk := pick(r, 64, 1000, 60000)
			go func() {
				var sb strings.Builder
				buf := make([]byte, chunk)
				n := 0
				for {
					k, err := pr.Read(buf)
					sb.Write(buf[:k])
					if err == io.EOF || err != nil {
						break
					}
					n++
					if stall > 0 && n%(50*stall) == 1 {
						time.Sleep(time.Millisecond)
					}
				}
				ch <- sb.String()
			}()
			read = func() string { pw.Close(); s := <-ch; pr.Close(); return s }
		case "roll":
			file = filepath.Join(w.Dir, pfx, "rf.log")
			if r.Intn(2) == 0 {
				b.out(pfx+"o", "size_rolling_file", pfx+"f", append(kv, "file", file, "size", "1G")...)
			} else {
				b.out(pfx+"o", "time_rolling_file", pfx+"f", append(kv, "file", file, "pattern", "2006")...)
			}
			read = func() string { return readFile(file) }
		}
		nl := 1 + r.Intn(4)
		for i := 0; i < nl; i++ {
			b.logger(fmt.Sprintf("%sl%d", pfx, i), "all", pfx+"o")
		}
		ok := false
		if so != nil {
			withStdout(so, func() { ok = b.load(w) && outputOf(w, pfx+"l0", 0) != nil })
		} else {
			ok = b.load(w)
		}
		if !ok {
			return
		}
		G := pick(r, 1, 2, 3, 4, 8, 16)
		per := pick(r, 5, 50, 300)
		maxSize := pick(r, 0, 10, 200, 200, 5000)
		if per == 5 {
			maxSize = pick(r, 10, 200, 70000)
		}
		st := newStream()
		type rec struct {
			size, call int
			l          api.Writer
			ln         int
		}
		plan := make([][]rec, G)
		for g := range plan {
			for k := 0; k < per; k++ {
				ln := r.Intn(nl)
				var lw api.Writer = getLogger(fmt.Sprintf("%sl%d", pfx, ln))
				if r.Intn(4) == 0 {
					lw = getLogger(fmt.Sprintf("%sl%d", pfx, ln)).WithFields(api.Field{Key: "a", Value: g})
				}
				plan[g] = append(plan[g], rec{r.Intn(maxSize + 1), r.Intn(len(logCalls)), lw, ln})
			}
		}
		yield := make([]bool, G)
		for g := range yield {
			yield[g] = r.Intn(3) == 0
		}
		below := newStream() // records the threshold filters
		sent := 0
		for g := range plan {
			for _, p := range plan[g] {
				if rank(logCalls[p.call].lvl) >= rank(thr) {
					sent++
				}
			}
		}
		par(G, func(g int) {
			for k, p := range plan[g] {
				c := logCalls[p.call]
				s := st
				if rank(c.lvl) < rank(thr) {
					s = below
				}
				s.log(recKey{g, k}, p.size, func(m string) { c.f(p.l, m) })
				if yield[g] {
					runtime.Gosched()
				}
			}
		})
		if sent > queue {
			w.Count("cases with more records than queue slots", 1)
		}
		// records which are all alike
		alike := G * r.Intn(pick(r, 3, 20, 3*batch/G+2))
		lg := getLogger(pfx + "l0")
		par(G, func(g int) {
			for i := 0; i < alike/G; i++ {
				lg.Critical(twin)
			}
		})
		mgr().Close()
		text, twins := takeTwins(read(), shortNames[api.Critical]+"/"+pfx+"l0\t"+twin+"\n")
		if twins != alike {
			w.Fail(ifel(twins < alike, "record lost", "record duplicated"), "case %d %s queue_size=%d batch_num=%d goroutines=%d: of %d records which are all alike %d are there", ci, w.Job.Kind, queue, batch, G, alike, twins)
		}
		w.Count("records which are all alike", twins)
		pre := func(x *stamp) string {
			p := plan[x.g][x.seq]
			return shortNames[logCalls[p.call].lvl] + "/" + fmt.Sprintf("%sl%d", pfx, p.ln)
		}
		sig, msg, info := st.check(text, pre, streamOpts{})
		if sig != "" {
			w.Fail(sig, "case %d %s queue_size=%d batch_num=%d threshold=%v goroutines=%d records=%d: %s", ci, w.Job.Kind, queue, batch, thr, G, sent, msg)
		}
		w.Count("records", info.present)
		w.Count("producer switches", info.switches)
		key := ""
		if info.switches > 0 {
			key = fmt.Sprintf("%s/%d/%d/%v/%x", w.Job.Kind, queue, batch, thr, info.order)
		}
		w.Eval(key)
		w.Sample("%s queue_size=%d batch_num=%d threshold=%v goroutines=%d x %d records of up to %d bytes: %d written, %d switches between goroutines", w.Job.Kind, queue, batch, thr, G, per, maxSize, info.present, info.switches)
		os.RemoveAll(filepath.Join(w.Dir, pfx))
		if strings.HasPrefix(file, w.Dir) {
			os.Remove(file)
		}
	}
}
