package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Check{
		ID:     "C06",
		Rule:   "a case runs an asynchronous output (console file, size or time rolling file) under a virtual clock (testing/synctest) through a random sequence of bursts from 1-4 goroutines, trickles of single records in steady succession, and quiet periods of 0 s to days; at every quiescent point the records not yet written must be fewer than batch_num and none older than ten (virtual) seconds, and a quiet period starting with nothing waiting must leave the destination directory exactly as it was (names, inodes, sizes, modification times). Non-trivial when a partial batch was waiting when a quiet period began; distinct by configuration and history.",
		Assume: []string{"virtual time of testing/synctest stands for real time"},
		Plan: func(seed int64, th bool) []Job {
			n, c := 24, 100
			if th {
				n, c = 100, 800
			}
			return jobs("idle", seed, n, c, map[string]int{"bubble": 1})
		},
		Worker: c06,
		Min:    map[string]int{"evaluations": 400, "quiescent points": 5000, "partial batches flushed by time": 1000, "idle periods with nothing waiting": 1000, "trickles": 200, "distinct": 300},
	})
}

// dirState describes a directory tree including inodes and times.
func dirState(dir string) string {
	var ls []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		ls = append(ls, fmt.Sprintf("%s %v %d ino=%d mtime=%d.%d ctime=%d.%d", p, fi.Mode(), fi.Size(), st.Ino, st.Mtim.Sec, st.Mtim.Nsec, st.Ctim.Sec, st.Ctim.Nsec))
		return nil
	})
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func c06(w *W) {
	r := w.Rng
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("i%d", ci)
		b := (&Cfg{}).quietRoot(pfx)
		b.format(pfx+"f", "%{msg}\n")
		queue := pick(r, 1, 3, 20, 100, 1000)
		batch := pick(r, 1, 2, 3, 5, 20, 50, 100, 499, 500)
		kv := []string{"async", "true", "queue_size", fmt.Sprint(queue), "batch_num", fmt.Sprint(batch)}
		if r.Intn(6) == 0 {
			kv = []string{"async", "true"}
			batch = 20
		}
		kind := pick(r, "console", "size", "size-limit", "time")
		dir := filepath.Join(w.Dir, pfx)
		os.Mkdir(dir, 0755)
		file := filepath.Join(dir, "rf.log")
		opts := streamOpts{}
		read := func() string { return readFile(file) }
		var so *os.File
		switch kind {
		case "console":
			f, _ := os.OpenFile(file, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
			so = f
			b.out(pfx+"o", "console", pfx+"f", kv...)
		case "size":
			b.out(pfx+"o", "size_rolling_file", pfx+"f", append(kv, "file", file, "size", "1G")...)
		case "size-limit": // every batch reaches the limit
			b.out(pfx+"o", "size_rolling_file", pfx+"f", append(kv, "file", file, "size", "10", "backups", "20")...)
			read = func() string {
				s, bk := sizeStream(dir, "rf.log", false)
				opts.oldestOK = len(bk) == 20
				return s
			}
		case "time":
			b.out(pfx+"o", "time_rolling_file", pfx+"f", append(kv, "file", file, "pattern", "2006-01-02T15.04.05", "backups", "20")...)
			read = func() string {
				_, ts := timeBackups(dir, "rf.log", "2006-01-02T15.04.05", false)
				opts.oldestOK = len(ts) == 20
				return timeStream(dir, "rf.log", "2006-01-02T15.04.05")
			}
		}
		b.logger(pfx, "all", pfx+"o")
		ok := false
		load := func() { ok = b.load(w) && outputOf(w, pfx, 0) != nil }
		if so != nil {
			withStdout(so, load)
		} else {
			load()
		}
		if !ok {
			return
		}
		lg := getLogger(pfx)
		st := newStream()
		type sentRec struct {
			k  recKey
			at time.Time
		}
		var waiting []sentRec // sent, not yet seen written
		everWritten := map[recKey]bool{}
		seq := 0
		var hist []string
		check := func(where string) bool {
			settle()
			w.Count("quiescent points", 1)
			text := read()
			sig, msg, _ := st.check(text, nil, streamOpts{mayMiss: func(*stamp) bool { return true }, perGorder: true})
			if sig != "" {
				w.Fail(sig, "case %d %s: %s; history %v", ci, where, msg, hist)
				return false
			}
			for _, l := range strings.Split(text, "\n") {
				if k, _, ok := parseRec(l); ok {
					everWritten[k] = true
				}
			}
			n := 0
			var oldest *sentRec
			keep := waiting[:0]
			for _, s := range waiting {
				if !everWritten[s.k] {
					n++
					if oldest == nil {
						oldest = &sentRec{s.k, s.at}
					}
					keep = append(keep, s)
				}
			}
			waiting = keep
			if opts.oldestOK && n > 0 {
				// records may have been written and dropped with the oldest backups;
				// such cases end before that
				fatal("c06: backup limit reached")
			}
			if n >= batch {
				w.Fail("full batch waiting", "case %d %s: output idle with %d records waiting, batch_num=%d queue_size=%d; history %v", ci, where, n, batch, queue, hist)
				return false
			}
			if oldest != nil && time.Since(oldest.at) > 10*time.Second {
				w.Fail("record not visible in time", "case %d %s: record %v logged %v ago is not written, batch_num=%d queue_size=%d kind %s; history %v", ci, where, oldest.k, time.Since(oldest.at), batch, queue, kind, hist)
				return false
			}
			return true
		}
		partial := false
		writes := 0
		for step := 0; step < 4+r.Intn(10) && writes < 18; step++ {
			if r.Intn(3) == 0 && batch > 2 && (kind == "console" || kind == "size") {
				// a trickle: single records in steady succession, for longer than the bound
				d := time.Duration(1+r.Intn(4999)) * time.Millisecond
				total := time.Duration(11+r.Intn(40)) * time.Second
				n := min(int(total/d)+1, 300)
				writes += 2
				hist = append(hist, fmt.Sprintf("trickle of %d every %v", n, d))
				for k := 0; k < n; k++ {
					at := time.Now()
					st.log(recKey{seq, 0}, k%40, func(m string) { lg.Info(m) })
					waiting = append(waiting, sentRec{recKey{seq, 0}, at})
					seq++
					time.Sleep(d)
					if (k%8 == 7 || d > time.Second || k == n-1) && !check("in a trickle") {
						return
					}
				}
				w.Count("trickles", 1)
			} else if r.Intn(3) > 0 {
				n := pick(r, 1, 1, 2, batch-1, batch, batch+1, 2*batch+1, r.Intn(3*batch))
				if kind == "size-limit" || kind == "time" {
					if (writes + n/batch + 2) > 18 { // stay below 20 backups
						n = 1
					}
				}
				writes += n/batch + 2
				hist = append(hist, fmt.Sprintf("log %d", n))
				G := 1 + r.Intn(4)
				if n < G {
					G = 1
				}
				base := seq
				at := time.Now()
				par(G, func(g int) {
					for k := g; k < n; k += G {
						st.log(recKey{base + k, 0}, k%40, func(m string) { lg.Info(m) })
					}
				})
				for k := 0; k < n; k++ {
					waiting = append(waiting, sentRec{recKey{base + k, 0}, at})
				}
				seq += n
				if !check("after a burst") {
					return
				}
			}
			var d time.Duration
			switch r.Intn(6) {
			case 0:
				d = time.Duration(r.Intn(1000)) * time.Millisecond
			case 1:
				d = time.Duration(r.Intn(6000)) * time.Millisecond
			case 2:
				d = 5 * time.Second
			case 3:
				d = 10*time.Second + time.Duration(r.Intn(2))
			case 4:
				d = time.Duration(10+r.Intn(100)) * time.Second
			case 5:
				d = time.Duration(1+r.Intn(50)) * time.Hour
			}
			hist = append(hist, d.String())
			was := len(waiting)
			before := ""
			if was == 0 {
				before = dirState(dir)
			} else {
				partial = true
			}
			time.Sleep(d)
			if !check("after " + d.String()) {
				return
			}
			if was == 0 {
				w.Count("idle periods with nothing waiting", 1)
				if a := dirState(dir); a != before {
					w.Fail("idle output touched its destination", "case %d %s after %v: before\n%s\nafter\n%s\nhistory %v", ci, kind, d, before, a, hist)
					return
				}
			} else if len(waiting) == 0 {
				w.Count("partial batches flushed by time", 1)
			}
		}
		w.Count("records", seq)
		key := ""
		if partial {
			key = hash(fmt.Sprint(kind, queue, batch, hist))
		}
		w.Eval(key)
		w.Sample("%s queue_size=%d batch_num=%d: %s; %d still waiting at the end", kind, queue, batch, strings.Join(hist, ", "), len(waiting))
		mgr().Close()
		if so != nil {
			so.Close()
		}
		os.RemoveAll(dir)
	}
}
