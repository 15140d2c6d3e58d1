//go:build oshook

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{
		ID:   "C10",
		Rule: "a case runs a rolling output with archive zip or gzip (by size, or by time under a virtual clock) through writes, restarts (also changing the archive type and the limit) with files left in the way of archives, users moving backups away (their archives must stay as they are), and windows in which operations on archives or their temporary files fail. An online monitor below the library compares archives (decompressed) + backups + current file with everything written before every rename and remove; after every write additionally the number and choice of remaining backups is checked when no failure was injected. Non-trivial when at least one archive was made; distinct by history.",
		Assume: []string{
			"failures are injected at the entry points of package os",
			"users remove backups (but not archives) while nothing is rotated",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 90
			if th {
				n, c = 200, 200
			}
			js := jobs("size", seed, n, c, nil)
			return append(js, jobs("time", seed, n, c, map[string]int{"bubble": 1})...)
		},
		Worker:  c10,
		Timeout: 60 * time.Second,
		Min:     map[string]int{"evaluations": 800, "archives made": 5000, "monitored renames and removes": 20000, "injected failures": 2000, "backups kept after a failure": 500, "restarts": 1000, "backups moved away": 300, "records": 20000, "records of more than a mebibyte": 10, "files in the way of archives": 500, "distinct": 500},
	})
}

func c10(w *W) {
	r := w.Rng
	quietStderr()
	useHook(w.Dir)
	timed := w.Job.Kind == "time"
	if timed {
		time.Sleep(time.Duration(r.Int63n(int64(10 * 365 * 24 * time.Hour))))
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("a%d", ci)
		dir := filepath.Join(w.Dir, pfx)
		base := pick(r, "rf.log", "app", ".rf.log", "日 志.log", "a.b.log")
		prefix := r.Intn(2) == 0
		pattern := ""
		if timed {
			pattern = pick(r, "20060102-150405", "2006-01-02T15.04.05", "2006-01-02")
		}
		limit := pick(r, 1, 40, 300, 5000)
		N := pick(r, 1, 1, 2, 3, 5)
		async := r.Intn(4) == 0
		batch := pick(r, 1, 2, 5)
		ext := ""
		var hist []string
		note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		life := 0
		start := func() bool {
			life++
			ar := pick(r, "zip", "gzip")
			ext = map[string]string{"zip": ".zip", "gzip": ".gz"}[ar]
			b := (&Cfg{}).quietRoot(fmt.Sprintf("%sv%d", pfx, life))
			fn := fmt.Sprintf("%sf%d", pfx, life)
			b.format(fn, "%{msg}")
			kv := []string{"file", filepath.Join(dir, base), "backups", fmt.Sprint(N), "archive", ar}
			if prefix {
				kv = append(kv, "name_mode", "prefix")
			}
			if async {
				kv = append(kv, "async", "true", "batch_num", fmt.Sprint(batch))
			}
			on := fmt.Sprintf("%so%d", pfx, life)
			if timed {
				b.out(on, "time_rolling_file", fn, append(kv, "pattern", pattern)...)
			} else {
				b.out(on, "size_rolling_file", fn, append(kv, "size", fmt.Sprint(limit))...)
			}
			b.logger(pfx, "all", on)
			note("start %s N=%d", ar, N)
			return b.load(w)
		}
		// everything handed to the output; done is the length that must be there
		var all strings.Builder
		var mu sync.Mutex // all, done, failed, fails, faultP, kinds, faultRnd: the hook runs in the output's goroutine
		done := 0
		fails := 0  // injected now
		faultP := 0 // percent
		var kinds map[string]bool
		faultRnd := rand.New(rand.NewSource(r.Int63()))
		failed := ""
		getFailed := func() string {
			mu.Lock()
			defer mu.Unlock()
			return failed
		}
		setFailed := func(s string) {
			mu.Lock()
			defer mu.Unlock()
			failed = s
		}
		getFails := func() int {
			mu.Lock()
			defer mu.Unlock()
			return fails
		}
		// files in the way of archives: what an earlier run, or somebody else, left there
		junk := map[string]string{}
		addJunk := func(roll string) {
			name := backupName(base, roll, prefix) + pick(r, ".gz", ".zip")
			text := pick(r, "x", "junk "+name, "\x1f\x8b\x08\x00", string(gz("not the log")))
			unmonitored(func() {
				os.MkdirAll(dir, 0755)
				mu.Lock()
				defer mu.Unlock()
				f, err := os.OpenFile(filepath.Join(dir, name), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
				if err == nil {
					junk[name] = text
					f.WriteString(text)
					f.Close()
					w.Count("files in the way of archives", 1)
					note("junk %s", name)
				}
			})
		}
		if r.Intn(3) == 0 {
			for k := 1 + r.Intn(6); k > 0; k-- {
				if timed {
					d := pick(r, 0, time.Second, 2*time.Second, 3*time.Second, 24*time.Hour, 240*time.Hour)
					addJunk(time.Now().Add(d).Format(pattern))
				} else {
					addJunk(fmt.Sprint(1 + r.Intn(12)))
				}
			}
		}
		// what users took away, with everything older: the text, and the archives of it that
		// are still there, which must stay as they are
		gone := ""
		frozen := map[string]string{}
		check := func(when string) ([]*rolled, string) {
			mu.Lock()
			defer mu.Unlock()
			rs, cur, err := rolledFiles(dir, base, pattern, prefix, junk, frozen)
			for n, t := range frozen {
				if g, e := os.ReadFile(filepath.Join(dir, n)); err == nil && (e != nil || string(g) != t) {
					err = fmt.Errorf("archive %s was replaced or removed", n)
				}
			}
			if err == nil {
				var s string
				if s, err = wholeLog(rs, cur); err == nil {
					s = gone + s
					a := all.String()
					if len(s) < done || len(s) > len(a) || s != a[:len(s)] {
						err = fmt.Errorf("archives, backups and current file hold %d bytes %q, written were %d (of at most %d) bytes %q", len(s), clip(s, 300), done, len(a), clip(a, 300))
					}
				}
			}
			if err != nil && failed == "" {
				failed = fmt.Sprintf("%s: %v; files: %s", when, err, rollsString(rs, cur))
			}
			return rs, cur
		}
		setMonitor(func(op, p, p2 string) error {
			rel, rel2 := strings.TrimPrefix(p, dir+"/"), strings.TrimPrefix(p2, dir+"/")
			if op == "rename" || op == "remove" {
				w.Count("monitored renames and removes", 1)
				check(fmt.Sprintf("before %s %s %s", op, rel, rel2))
			}
			// what may fail: everything about temporary files and archives, and
			// reading or removing backups
			tmp := strings.Contains(rel, ".log4g_tmp")
			arch := strings.HasSuffix(rel2, ".gz") || strings.HasSuffix(rel2, ".zip")
			var k string
			switch {
			case op == "rename" && arch && rel != base:
				k = "rename"
			case tmp:
				k = "tmp " + op
			case (op == "open" && p2 == "r" || op == "read" || op == "remove") && rel != base && p != dir && p != dir+"/":
				k = "backup " + op
			}
			mu.Lock()
			defer mu.Unlock()
			if k != "" && faultP > 0 && kinds[k] && faultRnd.Intn(100) < faultP {
				fails++
				w.Count("injected failures", 1)
				return errInjected
			}
			return nil
		})
		if !start() {
			return
		}
		lg := getLogger(pfx)
		stampNow := func() { // what a file system with the virtual clock would have recorded
			if timed {
				unmonitored(func() { os.Chtimes(filepath.Join(dir, base), time.Now(), time.Now()) })
			}
		}
		closeOut := func() {
			outputOf(w, pfx, 0).Close()
			stampNow()
			mu.Lock()
			done = all.Len()
			mu.Unlock()
		}
		blocked := false // .log4g_tmp is a file
		made := map[string]bool{}
		big := r.Intn(6) == 0
		huge := 0
		if r.Intn(150) == 0 {
			huge = 1
		}
		ok := true
		dirty := false // failures since the last check
		for k := 0; k < 25+r.Intn(30) && ok; k++ {
			switch r.Intn(14) {
			case 0: // restart
				if async {
					closeOut()
				}
				stampNow()
				w.Count("restarts", 1)
				N = pick(r, N, N, 1, 2, 4)
				ok = start()
			case 1:
				p, ks := pick(r, 0, 10, 50, 100), map[string]bool{}
				for _, x := range []string{"rename", "tmp open", "tmp write", "tmp mkdir", "tmp close", "tmp remove", "backup open", "backup read", "backup remove"} {
					ks[x] = r.Intn(2) == 0
				}
				mu.Lock()
				faultP, kinds = p, ks
				mu.Unlock()
				note("failures %d%% %v", p, ks)
			case 2:
				mu.Lock()
				faultP = 0
				mu.Unlock()
				note("no failures")
			case 3:
				t := filepath.Join(dir, ".log4g_tmp")
				if !blocked && r.Intn(3) == 0 && !async {
					unmonitored(func() {
						os.RemoveAll(t)
						if os.WriteFile(t, nil, 0644) == nil {
							blocked = true
						}
					})
					note("temporary directory blocked")
				} else if blocked {
					unmonitored(func() { os.Remove(t) })
					blocked = false
					note("unblocked")
				}
			case 6: // left by an attempt to archive a backup
				if es, _ := os.ReadDir(dir); len(es) > 0 && r.Intn(3) == 0 {
					if roll, ok := rollName(pick(r, es...).Name(), base, prefix); ok && (timed || strings.Trim(roll, "0123456789") == "") {
						addJunk(roll)
					}
				}
			case 4, 5:
				if r.Intn(5) == 0 { // users move backups away, the oldest or all
					if async {
						closeOut()
						if ok = start(); !ok {
							break
						}
					}
					unmonitored(func() {
						rs, _ := check("before backups are moved away")
						if getFailed() != "" {
							return
						}
						last, all := -1, r.Intn(2) == 0
						for i, x := range rs {
							if x.backup && (all || last < 0 || r.Intn(2) == 0) {
								last = i
							} else if x.backup {
								break
							}
						}
						mu.Lock()
						defer mu.Unlock()
						for i := 0; i <= last; i++ {
							x := rs[i]
							for _, a := range x.archs {
								frozen[a] = readFile(filepath.Join(dir, a))
							}
							if x.backup {
								gone += x.text
								os.Remove(filepath.Join(dir, backupName(base, x.roll, prefix)))
								w.Count("backups moved away", 1)
								if len(x.archs) == 0 {
									w.Count("backups moved away without an archive", 1)
								}
								note("moved %s", x.roll)
							} else {
								gone += x.archTxt[0]
							}
						}
					})
					if getFailed() != "" {
						break
					}
				}
				if timed {
					d := pick(r, time.Millisecond, time.Second, 1500*time.Millisecond, 24*time.Hour)
					if pattern == "2006-01-02" {
						d *= 10
					}
					time.Sleep(d)
					note("sleep %v", d)
				}
			default:
				size := pick(r, 0, 1, 5, 20, 60, limit, limit+1)
				if big && r.Intn(8) == 0 {
					size = 100000 + r.Intn(100000)
				}
				if huge > 0 && k > 3 && N <= 2 {
					huge--
					size = 1<<20 + r.Intn(2<<20)
					if r.Intn(3) == 0 {
						size = 17<<20 + r.Intn(4<<20)
						w.Count("records of more than 16 mebibytes", 1)
					}
					w.Count("records of more than a mebibyte", 1)
				}
				msg := recText(recKey{ci, k}, size) + "\n"
				mu.Lock()
				fails = 0
				mu.Unlock()
				var before []*rolled
				if !async {
					unmonitored(func() { before, _ = check("before a record") })
				}
				wasBlocked := blocked
				mu.Lock()
				all.WriteString(msg)
				mu.Unlock()
				lg.Info(msg)
				w.Count("records", 1)
				note("log %d", len(msg))
				if async {
					if r.Intn(3) > 0 {
						continue
					}
					closeOut()
					ok = start()
					dirty = dirty || getFails() > 0 || wasBlocked
				} else {
					mu.Lock()
					done = all.Len()
					mu.Unlock()
					dirty = getFails() > 0 || wasBlocked
				}
				stampNow()
				var rs []*rolled
				var cur string
				unmonitored(func() { rs, cur = check("after a record") })
				if getFailed() != "" {
					break
				}
				nb := 0
				for _, x := range rs {
					for _, a := range x.archs {
						if !made[a] {
							made[a] = true
							w.Count("archives made", 1)
							if !async && !strings.HasSuffix(a, ext) {
								setFailed(fmt.Sprintf("archive %s should be of type %s", a, ext))
							}
						}
					}
					if x.backup {
						nb++
					}
				}
				rotated := len(rs) > len(before)
				if nb > N {
					w.Count("backups kept after a failure", 1)
				}
				if rotated && !dirty && !async {
					// exactly the newest N remain, the others are archived
					was := map[string]bool{}
					var want, got []string
					for _, x := range before {
						was[x.roll] = true
						if x.backup {
							want = append(want, x.roll)
						}
					}
					for _, x := range rs {
						if !was[x.roll] {
							want = append(want, x.roll)
						}
						if x.backup {
							got = append(got, x.roll)
						}
					}
					if len(want) > N {
						want = want[len(want)-N:]
					}
					if fmt.Sprint(want) != fmt.Sprint(got) {
						setFailed(fmt.Sprintf("after an undisturbed rotation with backups=%d the backups should be %v: %s", N, want, rollsString(rs, cur)))
					}
				}
			}
			if failed := getFailed(); failed != "" {
				sig := "log incomplete"
				if strings.Contains(failed, "undisturbed") || strings.Contains(failed, "within the limit") || strings.Contains(failed, "should be of type") {
					sig = "wrong files archived"
				} else if strings.Contains(failed, "damaged") {
					sig = "damaged archive"
				}
				w.Fail(sig, "case %d file %s pattern %q size=%d prefix=%v async=%v batch=%d: %s; history %v", ci, base, pattern, limit, prefix, async, batch, failed, hist)
				ok = false
			}
		}
		setHook(nil)
		key := ""
		if len(made) > 0 {
			key = hash(fmt.Sprint(timed, limit, N, prefix, hist))
		}
		w.Eval(key)
		w.Sample("%s pattern=%q size=%d prefix=%v async=%v: %s", base, pattern, limit, prefix, async, strings.Join(hist, ", "))
		if async {
			outputOf(w, pfx, 0).Close()
		}
		os.RemoveAll(dir)
	}
}
