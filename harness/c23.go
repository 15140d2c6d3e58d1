package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C23",
		Rule: "a case lets 2-16 goroutines log records of 0 bytes to 1 MiB (small ones mostly, larger than a pipe or the default buffers sometimes) through 1-4 loggers sharing one synchronous output (console into file, pipe or socket; memory; size and time rolling files, with and without rotation); the output must hold every record exactly once, in one piece and in real-time order. Non-trivial when records of different goroutines are adjacent; distinct by configuration and resulting order.",
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c := 2, 40
			if th {
				n, c = 10, 200
			}
			for _, p := range []int{2, 4, 8} {
				for _, k := range []string{"file", "pipe", "memory", "size", "time", "rotate"} {
					js = append(js, jobs(k, seed+int64(p), n, c, map[string]int{"procs": p})...)
				}
			}
			return js
		},
		Worker: c23,
		Min:    map[string]int{"evaluations": 500, "records": 100000, "producer switches": 20000, "distinct": 300, "large records": 100},
	})
}

func c23(w *W) {
	gomaxprocs(w)
	r := w.Rng
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("s%d", ci)
		b := (&Cfg{}).quietRoot(pfx)
		b.format(pfx+"f", "%{module}\t%{msg}\n")
		dir := filepath.Join(w.Dir, pfx)
		file := filepath.Join(dir, "rf.log")
		var so *os.File
		var read func() string
		opts := streamOpts{}
		G := 2 + r.Intn(15)
		per := pick(r, 5, 50, 200)
		maxSize := pick(r, 0, 30, 300, 300)
		big := per == 5 && r.Intn(2) == 0
		switch w.Job.Kind {
		case "file":
			f, _ := os.OpenFile(filepath.Join(w.Dir, pfx+".out"), os.O_CREATE|os.O_RDWR, 0644) // no O_APPEND: position shared
			so = f
			b.out(pfx+"o", "console", pfx+"f")
			read = func() string { n := f.Name(); f.Close(); s := readFile(n); os.Remove(n); return s }
		case "pipe":
			pr, pw, err := os.Pipe()
			if err != nil {
				fatal("%v", err)
			}
			so = pw
			b.out(pfx+"o", "console", pfx+"f")
			ch := make(chan string, 1)
			buf := make([]byte, pick(r, 100, 4096, 100000))
			go func() {
				var sb strings.Builder
				for {
					k, err := pr.Read(buf)
					sb.Write(buf[:k])
					if err == io.EOF || err != nil {
						break
					}
				}
				ch <- sb.String()
			}()
			read = func() string { pw.Close(); s := <-ch; pr.Close(); return s }
		case "memory":
			b.out(pfx+"o", "memory", pfx+"f")
			read = func() string { return memText(outputOf(w, pfx+"l0", 0)) }
		case "size":
			b.out(pfx+"o", "size_rolling_file", pfx+"f", "file", file, "size", "1G")
			read = func() string { return readFile(file) }
		case "time":
			b.out(pfx+"o", "time_rolling_file", pfx+"f", "file", file, "pattern", "2006-01-02T15")
			read = func() string { return timeStream(dir, "rf.log", "2006-01-02T15") }
		case "rotate":
			size := 1 + r.Intn(5000)
			b.out(pfx+"o", "size_rolling_file", pfx+"f", "file", file, "size", fmt.Sprint(size), "backups", "20")
			read = func() string {
				s, bk := sizeStream(dir, "rf.log", false)
				opts.oldestOK = len(bk) >= 20
				return s
			}
		}
		nl := 1 + r.Intn(4)
		for i := 0; i < nl; i++ {
			b.logger(fmt.Sprintf("%sl%d", pfx, i), "all", pfx+"o")
		}
		ok := false
		if so != nil {
			withStdout(so, func() { ok = b.load(w) && outputOf(w, pfx+"l0", 0) != nil })
		} else {
			ok = b.load(w)
		}
		if !ok {
			return
		}
		st := newStream()
		type rec struct {
			size, call, ln int
			l              api.Writer
			nap            bool
		}
		plan := make([][]rec, G)
		for g := range plan {
			for k := 0; k < per; k++ {
				ln := r.Intn(nl)
				size := r.Intn(maxSize + 1)
				if big && r.Intn(3) == 0 {
					size = pick(r, 5000, 70000, 1<<20)
					w.Count("large records", 1)
				}
				plan[g] = append(plan[g], rec{size, r.Intn(len(logCalls)), ln, getLogger(fmt.Sprintf("%sl%d", pfx, ln)), r.Intn(40) == 0})
			}
		}
		par(G, func(g int) {
			for k, p := range plan[g] {
				st.log(recKey{g, k}, p.size, func(m string) { logCalls[p.call].f(p.l, m) })
				if p.nap {
					time.Sleep(time.Microsecond)
				}
			}
		})
		// very many calls at the same time: their values wait for each other, for a while
		crowd := 0
		if r.Intn(12) == 0 && w.Job.Kind != "rotate" {
			crowd = pick(r, 70, 150, 300, 700)
			gate := &gate23{n: int32(crowd), open: make(chan bool)}
			lg := getLogger(pfx + "l0")
			par(crowd, func(int) { lg.Error(crowdText, gate) })
			if gate.met.Load() {
				w.Count("crowds of calls", 1)
			}
		}
		// records which are all alike
		alike := 0
		if w.Job.Kind != "rotate" {
			alike = G * r.Intn(20)
			lg := getLogger(pfx + "l0")
			par(G, func(g int) {
				for i := 0; i < alike/G; i++ {
					lg.Error(twin)
				}
			})
		}
		text, twins := takeTwins(read(), pfx+"l0\t"+twin+"\n")
		text, crowded := takeTwins(text, pfx+"l0\t"+crowdText+crowdText+"\n")
		if crowded != crowd {
			w.Fail(ifel(crowded < crowd, "record lost", "record duplicated"), "case %d %s: of %d records logged at the same time %d are there", ci, w.Job.Kind, crowd, crowded)
		}
		if twins != alike {
			w.Fail(ifel(twins < alike, "record lost", "record duplicated"), "case %d %s goroutines=%d: of %d records which are all alike %d are there", ci, w.Job.Kind, G, alike, twins)
		}
		w.Count("records which are all alike", twins)
		sig, msg, info := st.check(text, func(x *stamp) string { return fmt.Sprintf("%sl%d", pfx, plan[x.g][x.seq].ln) }, opts)
		if sig != "" {
			w.Fail(sig, "case %d %s goroutines=%d records=%d up to %d bytes: %s", ci, w.Job.Kind, G, G*per, maxSize, msg)
		}
		w.Count("records", info.present)
		w.Count("producer switches", info.switches)
		key := ""
		if info.switches > 0 {
			key = fmt.Sprintf("%s/%d/%x", w.Job.Kind, nl, info.order)
		}
		w.Eval(key)
		w.Sample("%s: %d goroutines x %d records of up to %d bytes (large: %v) over %d loggers: %d present, %d switches between goroutines", w.Job.Kind, G, per, maxSize, big, nl, info.present, info.switches)
		mgr().Close()
		os.RemoveAll(dir)
	}
}

const crowdText = "=CROWD="

// gate23 is a value whose text is ready when n calls ask for it, or soon after the first.
type gate23 struct {
	n, in int32
	once  sync.Once
	open  chan bool
	met   atomic.Bool
}

func (g *gate23) String() string {
	if atomic.AddInt32(&g.in, 1) == g.n {
		g.met.Store(true)
		g.once.Do(func() { close(g.open) })
	}
	select {
	case <-g.open:
	case <-time.After(200 * time.Millisecond):
		g.once.Do(func() { close(g.open) })
	}
	return crowdText
}
