package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C09",
		Rule: "a case runs a synchronous time-rolled output under a virtual clock in one of several time zones from a random starting directory (older backups, a current file of an earlier period, foreign files) through a random sequence of records (in some cases through two outputs of the same file in turn), pauses (milliseconds to years, to and just around period boundaries), restarts and outside additions of foreign files, against an exact model of the directory (names and contents) compared after every record. Non-trivial when records of at least two periods were filed; distinct by history.",
		Assume: []string{
			"virtual time of testing/synctest stands for the clock; before a restart or a change of the writing output the harness sets the modification time of the current file to the virtual time of the last write",
			"patterns whose names repeat (cyclic ones; minutes in zones with daylight saving) are out of scope",
		},
		Plan: func(seed int64, th bool) []Job {
			var js []Job
			n, c := 16, 60
			if th {
				n, c = 200, 150
			}
			for i, z := range c09zones {
				js2 := jobs("zone"+z, seed, n, c, map[string]int{"bubble": 1, "dst": map[bool]int{true: 1}[i >= 5]})
				for j := range js2 {
					js2[j].Env = []string{"TZ=" + z}
				}
				js = append(js, js2...)
			}
			return js
		},
		Worker: c09,
		Min:    map[string]int{"evaluations": 400, "rotations": 3000, "restarts": 400, "restarts in a later period": 100, "backups dropped": 500, "records": 10000, "distinct": 300, "changes of writer": 500, "changes of writer in a later period": 50},
	})
}

var c09zones = []string{"UTC", "Asia/Kolkata", "Asia/Kathmandu", "Pacific/Kiritimati", "Etc/GMT+12", "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Pacific/Auckland", "America/Sao_Paulo"}

func c09(w *W) {
	r := w.Rng
	time.Sleep(time.Duration(r.Int63n(int64(20 * 365 * 24 * time.Hour))))
	type pat struct {
		p    string
		unit time.Duration
	}
	day := 24 * time.Hour
	pats := []pat{{"2006-01-02", day}, {"2006-01", 30 * day}, {"2006", 365 * day}, {"02.Jan.2006", day}, {"20060102", day}, {"log-2006-01-02", day}, {"Jan-2006", 30 * day}, {"2006-01-02-15", time.Hour}, {"2006010215", time.Hour}}
	if w.Job.P["dst"] == 0 {
		pats = append(pats, pat{"2006-01-02T15.04", time.Minute}, pat{"20060102-150405", time.Second}, pat{"2006-01-02T15.04.05", time.Second}, pat{"2006-01-02T15.04.05.000", time.Millisecond})
	}
	if time.Local.String() == "" {
		fatal("no time zone")
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		if time.Now().Year() > 2150 { // timers end in 2262
			break
		}
		pfx := fmt.Sprintf("p%d", ci)
		dir := filepath.Join(w.Dir, pfx)
		base := pick(r, "rf.log", "app", ".rf.log", "日 志.log", "a.b.log")
		cur := filepath.Join(dir, base)
		prefix := r.Intn(2) == 0
		pt := pick(r, pats...)
		N := pick(r, 1, 2, 3, 1+r.Intn(20))
		two := r.Intn(4) == 0
		N2 := pick(r, N, 1+r.Intn(5))
		writer, keep := 0, N
		files := map[string]string{}
		foreign := map[string]bool{}
		put := func(name, text string, mt time.Time) {
			os.MkdirAll(dir, 0755)
			p := filepath.Join(dir, name)
			if err := os.WriteFile(p, []byte(text), 0644); err != nil {
				fatal("%v", err)
			}
			os.Chtimes(p, mt, mt)
			files[name] = text
		}
		backups := func() []string { // oldest first
			type b struct {
				n string
				t time.Time
			}
			var bs []b
			for n := range files {
				if roll, ok := rollName(n, base, prefix); ok && !foreign[n] && n != base {
					t, err := time.ParseInLocation(pt.p, roll, time.Local)
					if err != nil {
						fatal("c09: %s: %v", n, err)
					}
					bs = append(bs, b{n, t})
				}
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].t.Before(bs[j].t) })
			var ns []string
			for _, x := range bs {
				ns = append(ns, x.n)
			}
			return ns
		}
		addForeign := func() {
			per := time.Now().Format(pt.p)
			n := pick(r, base+".bak", base+"."+per+".gz", base+".x"+per, base+"x."+per, backupName(base, per, !prefix), base+".", "x"+per+"."+base, base+".1", base+".2006-13-45", per, "other.log."+per)
			if _, err := time.ParseInLocation(pt.p, mustRoll(n, base, prefix), time.Local); err == nil {
				return
			}
			if _, ok := files[n]; ok || n == base {
				return
			}
			foreign[n] = true
			put(n, "foreign", time.Now())
		}
		var hist []string
		note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		curPer := ""
		lastWrite := time.Now()
		pre := r.Intn(3) > 0
		if pre {
			for k := pick(r, 0, 1, 3, N+3); k > 0; k-- {
				t := time.Now().Add(-time.Duration(10+r.Intn(200)) * pt.unit)
				n := backupName(base, t.Format(pt.p), prefix)
				put(n, "old "+n+"\n", t)
				note("+%s", n)
			}
			for k := r.Intn(4); k > 0; k-- {
				addForeign()
			}
			if r.Intn(2) == 0 {
				t := time.Now().Add(-time.Duration(r.Intn(8)) * pt.unit)
				lastWrite = t
				put(base, "earlier run\n", t)
				curPer = t.Format(pt.p)
				note("current file of %s", curPer)
			}
		}
		rot, dropped, recs := 0, 0, 0
		life := 0
		start := func() bool {
			life++
			b := (&Cfg{}).quietRoot(fmt.Sprintf("%sv%d", pfx, life))
			fn := fmt.Sprintf("%sf%d", pfx, life)
			b.format(fn, "%{msg}\n")
			kv := []string{"file", cur, "pattern", pt.p, "backups", fmt.Sprint(N)}
			if prefix {
				kv = append(kv, "name_mode", "prefix")
			}
			b.out(fmt.Sprintf("%so%d", pfx, life), "time_rolling_file", fn, kv...)
			b.logger(pfx, "all", fmt.Sprintf("%so%d", pfx, life))
			if two {
				// another output of the same file, which may keep another number of backups
				kv[5] = fmt.Sprint(N2)
				b.out(fmt.Sprintf("%sq%d", pfx, life), "time_rolling_file", fn, kv...)
				b.logger(pfx+"x", "all", fmt.Sprintf("%sq%d", pfx, life))
			}
			return b.load(w)
		}
		if !start() {
			return
		}
		lgs := []api.Logger{getLogger(pfx), getLogger(pfx + "x")}
		ok := true
		for k := 0; k < 15+r.Intn(40) && ok; k++ {
			switch r.Intn(12) {
			case 0: // restart
				os.Chtimes(cur, lastWrite, lastWrite)
				if r.Intn(2) == 0 {
					d := time.Duration(r.Int63n(int64(3*pt.unit) + 1))
					time.Sleep(d)
					note("down %v", d)
				}
				if curPer != "" && time.Now().Format(pt.p) != curPer {
					w.Count("restarts in a later period", 1)
				}
				w.Count("restarts", 1)
				note("restart")
				ok = start()
			case 1:
				addForeign()
			case 2, 3, 4, 5:
				var d time.Duration
				switch r.Intn(5) {
				case 0:
					d = time.Duration(r.Int63n(int64(pt.unit) + 1))
				case 1:
					d = time.Duration(r.Int63n(int64(5*pt.unit) + 1))
				case 2: // exactly to, or one unit of the clock before, the next boundary
					n := time.Now()
					t := n.Truncate(pt.unit).Add(pt.unit)
					if pt.unit >= day {
						t = time.Date(n.Year(), n.Month(), n.Day()+1, 0, 0, 0, 0, time.Local)
					}
					d = t.Sub(n) - time.Duration(r.Intn(2))
				case 3:
					d = time.Duration(r.Int63n(int64(time.Second)))
				case 4:
					m := time.Duration(40)
					if pt.unit > day {
						m = 3
					}
					d = time.Duration(r.Int63n(int64(m*pt.unit) + 1))
				}
				if d > 0 {
					time.Sleep(d)
					note("sleep %v", d)
				}
			default:
				now := time.Now()
				per := now.Format(pt.p)
				msg := fmt.Sprintf("%d %s", k, per)
				if two && r.Intn(3) == 0 {
					writer = 1 - writer
					keep = []int{N, N2}[writer]
					os.Chtimes(cur, lastWrite, lastWrite) // as for a restart
					w.Count("changes of writer", 1)
					if curPer != "" && curPer != per {
						w.Count("changes of writer in a later period", 1)
					}
					note("output %d (backups=%d)", writer, keep)
				}
				lgs[writer].Info(msg)
				lastWrite = now
				note("log at %s", now.Format(time.RFC3339Nano))
				recs++
				if curPer != "" && curPer != per {
					files[backupName(base, curPer, prefix)] = files[base]
					delete(files, base)
					rot++
					for bs := backups(); len(bs) > keep; bs = bs[1:] {
						delete(files, bs[0])
						dropped++
					}
				}
				curPer = per
				files[base] += msg + "\n"
				got := dirFiles(dir)
				var diff []string
				for n, c := range files {
					if g, ok := got[n]; !ok {
						diff = append(diff, "missing "+n)
					} else if g != c {
						diff = append(diff, fmt.Sprintf("%s has %q, want %q", n, g, c))
					}
				}
				for n, c := range got {
					if _, ok := files[n]; !ok {
						diff = append(diff, fmt.Sprintf("unexpected %s %q", n, c))
					}
				}
				if len(diff) > 0 {
					sort.Strings(diff)
					w.Fail("directory differs", "case %d zone %s pattern %s backups=%d prefix=%v file %s: %v; history %v", ci, time.Local, pt.p, N, prefix, base, diff, hist)
					ok = false
				}
			}
		}
		w.Count("rotations", rot)
		w.Count("backups dropped", dropped)
		w.Count("records", recs)
		key := ""
		if rot > 0 {
			key = hash(fmt.Sprint(pt.p, N, prefix, hist))
		}
		w.Eval(key)
		w.Sample("%s %s %s backups=%d prefix=%v: %s", os.Getenv("TZ"), base, pt.p, N, prefix, strings.Join(hist, ", "))
		os.RemoveAll(dir)
	}
}

func mustRoll(name, base string, prefix bool) string {
	s, ok := rollName(name, base, prefix)
	if !ok {
		return "\x00"
	}
	return s
}
