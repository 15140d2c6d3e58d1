//go:build oshook

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// c12vanish: log files and directories are moved away, copied and truncated, replaced by
// new ones, or removed while they are in use, as by logrotate and administrators. Where
// nothing is removed nothing may be lost: what is not in the log is in what was moved away.
// After a removal records may be missing until the file is due to roll.
func c12vanish(w *W) {
	r := w.Rng
	quietStderr()
	time.Sleep(time.Duration(r.Int63n(int64(365 * 24 * time.Hour))))
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		c12vanishCase(w, r, ci)
	}
}

func c12vanishCase(w *W, r *rand.Rand, ci int) {
	pfx := fmt.Sprintf("n%d", ci)
	top := filepath.Join(w.Dir, pfx)
	dir := filepath.Join(top, "sub")
	moved := filepath.Join(w.Dir, pfx+"-moved")
	os.MkdirAll(moved, 0755)
	defer os.RemoveAll(top)
	defer os.RemoveAll(moved)
	base := "rf.log"
	cur := filepath.Join(dir, base)
	timed := r.Intn(3) == 0
	async := r.Intn(3) == 0
	prefix := r.Intn(3) == 0
	batch := pick(r, 1, 2, 7)
	limit := pick(r, 300, 1000)
	arch := pick(r, "", "gzip", "zip")
	pattern := ifel(timed, "20060102-150405", "")
	var hist []string
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	life := 0
	start := func() bool {
		life++
		b := (&Cfg{}).quietRoot(fmt.Sprintf("%sv%d", pfx, life))
		fn := fmt.Sprintf("%sf%d", pfx, life)
		on := fmt.Sprintf("%so%d", pfx, life)
		b.format(fn, "%{msg}\n")
		kv := []string{"file", cur, "backups", "20", "name_mode", ifel(prefix, "prefix", "")}
		if arch != "" {
			kv = append(kv, "archive", arch)
			kv[3] = fmt.Sprint(1 + r.Intn(3))
		}
		if async {
			kv = append(kv, "async", "true", "batch_num", fmt.Sprint(batch))
		}
		if timed {
			b.out(on, "time_rolling_file", fn, append(kv, "pattern", pattern)...)
		} else {
			b.out(on, "size_rolling_file", fn, append(kv, "size", fmt.Sprint(limit))...)
		}
		return b.logger(pfx, "all", on).load(w)
	}
	if !start() {
		return
	}
	lg := getLogger(pfx)
	type call struct {
		size int
		at   time.Time
		free bool // may be missing
	}
	calls := map[recKey]*call{}
	seq := 0
	grace := 0 // bytes which may be missing
	gracePeriod := ""
	var last time.Time
	idle := func() {
		settle()
		if async {
			time.Sleep(12 * time.Second)
			settle()
		}
	}
	rolls := 0
	for op := 0; op < 30 && !w.Failed(); op++ {
		switch k := r.Intn(10); {
		case k < 6:
			n := 1 + r.Intn(6)
			if timed && rolls > 15 && arch == "" {
				continue
			}
			for i := 0; i < n; i++ {
				c := &call{size: pick(r, 0, 10, 60, 200), at: time.Now()}
				c.free = grace > 0 || gracePeriod != "" && c.at.Format(pattern) == gracePeriod
				key := recKey{0, seq}
				seq++
				calls[key] = c
				t := recText(key, c.size)
				if c.free && grace > 0 {
					grace -= len(t) + 1
				}
				lg.Info(t)
				last = c.at
				if timed && r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
					rolls++
				}
			}
			note("%d records", n)
		case k == 6:
			if timed {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
				rolls++
			}
		case k == 7 && r.Intn(2) == 0: // restart
			outputOf(w, pfx, 0).Close()
			if timed && !last.IsZero() {
				os.Chtimes(cur, last, last)
			}
			if !start() {
				return
			}
			note("restart")
		default:
			if !timed && arch == "" && seq*60/limit > 12 {
				continue
			}
			idle()
			what := pick(r, "move file", "move file", "move file and create", "move file and link", "copy and truncate", "move directory", "move parent", "remove file", "remove directory", "remove parent")
			to := filepath.Join(moved, fmt.Sprint(op))
			var err error
			switch what {
			case "move file":
				err = os.Rename(cur, to)
			case "move file and create":
				if err = os.Rename(cur, to); err == nil {
					os.WriteFile(cur, nil, 0644)
				}
			case "move file and link":
				if err = os.Rename(cur, to); err == nil {
					os.Symlink(to, cur)
				}
			case "copy and truncate":
				var bs []byte
				if bs, err = os.ReadFile(cur); err == nil {
					os.WriteFile(to, bs, 0644)
					os.Truncate(cur, 0)
				}
			case "move directory":
				err = os.Rename(dir, to)
			case "move parent":
				err = os.Rename(top, to)
			case "remove file":
				err = os.Remove(cur)
			case "remove directory":
				if _, err = os.Lstat(dir); err == nil {
					os.RemoveAll(dir)
				}
			default:
				if _, err = os.Lstat(top); err == nil {
					os.RemoveAll(top)
				}
			}
			if err != nil {
				continue // nothing there
			}
			note("%s", what)
			w.Count("files and directories taken away", 1)
			w.Key("ways to take files away", what)
			if strings.HasPrefix(what, "remove") {
				for _, c := range calls {
					c.free = true
				}
				if timed {
					gracePeriod = time.Now().Format(pattern)
				} else {
					grace = limit
					if async {
						grace += batch * 230
					}
				}
			}
		}
	}
	idle()
	outputOf(w, pfx, 0).Close()
	// what there is
	desc := func() string {
		return fmt.Sprintf("case %d time=%v async=%v batch=%d size=%d prefix=%v archive=%q: history %v", ci, timed, async, batch, limit, prefix, arch, hist)
	}
	seen := map[recKey]bool{}
	parse := func(where, text, period string) {
		prev := -1
		for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			if text == "" {
				break
			}
			k, _, good := parseRec(l)
			c := calls[k]
			switch {
			case !good || c == nil:
				w.Fail("record not whole", "%s: %q is no record; %s", where, clip(l, 100), desc())
			case seen[k]:
				w.Fail("record duplicated", "%s: record %v is there twice; %s", where, k, desc())
			case k.seq < prev:
				w.Fail("records reordered", "%s: record %v comes after %d; %s", where, k, prev, desc())
			case period != "" && !async && c.at.Format(pattern) != period:
				w.Fail("record filed under another period", "%s: record %v of %s is in the backup of %s; %s", where, k, c.at.Format(pattern), period, desc())
			}
			seen[k] = true
			prev = k.seq
		}
	}
	log := func(d string) {
		rs, text, err := rolledFiles(d, base, pattern, prefix)
		if err != nil {
			w.Fail("log unreadable", "%s: %v; %s", d, err, desc())
			return
		}
		all, err := wholeLog(rs, text)
		if err != nil {
			w.Fail("log unreadable", "%s: %v; %s", d, err, desc())
			return
		}
		for _, x := range rs {
			if timed && x.backup {
				w.Count("backups whose period was checked", 1)
				for _, l := range strings.SplitAfter(x.text, "\n") {
					if k, _, good := parseRec(strings.TrimSuffix(l, "\n")); good && calls[k] != nil && !async && calls[k].at.Format(pattern) != x.roll {
						w.Fail("record filed under another period", "%s: record %v of %s is in the backup of %s; %s", d, k, calls[k].at.Format(pattern), x.roll, desc())
						break
					}
				}
			}
		}
		parse(d, all, "")
	}
	es, _ := os.ReadDir(moved)
	for _, e := range es {
		if e.Type()&os.ModeSymlink != 0 {
			continue // to another one of them
		}
		p := filepath.Join(moved, e.Name())
		if !e.IsDir() {
			parse(p, readFile(p), "")
			continue
		}
		if _, err := os.Lstat(filepath.Join(p, "sub")); err == nil {
			p = filepath.Join(p, "sub")
		}
		log(p)
	}
	log(dir)
	missing := 0
	for k, c := range calls {
		if seen[k] {
			continue
		}
		missing++
		if !c.free {
			w.Fail("record lost", "record %v is missing; %s", k, desc())
			break
		}
	}
	w.Count("records lost with a removed file", missing)
	w.Count("records around files taken away", len(calls))
	w.Eval(hash(fmt.Sprint(timed, async, batch, limit, prefix, arch, hist)))
	w.Sample("%s", desc())
}
