package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "a case starts from a random directory (backups with gaps and up to 15 digits, a current file from an earlier run, up to 1400 foreign files and directories with similar names) and runs a random sequence of writes (in some cases through two outputs of the same file in turn, each with bounds of its own), restarts and outside changes to the directory against an exact model of it (names and contents), compared after every write (asynchronous outputs with batch_num 1: after every close). Foreign files must also keep mode and modification time. Non-trivial when at least one rotation dropped a backup or found pre-existing files; distinct by history.",
		Assume: []string{
			"an asynchronous output writes a batch in one piece; the limit is per batch",
			"names which could be backups but are never made by the library (leading zeros, signs) are not generated",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 32, 100
			if th {
				n, c = 200, 600
			}
			return jobs("dir", seed, n, c, nil)
		},
		Worker: c08,
		Min:    map[string]int{"evaluations": 400, "rotations": 4000, "backups dropped": 2000, "restarts": 500, "foreign files": 5000, "crowded directories": 20, "backup names taken by others": 100, "changes of writer": 500, "distinct": 300},
	})
}

// foreignNames are similar to, but not, backups of base.
func foreignNames(base string, prefix bool, r interface{ Intn(int) int }) []string {
	n := strconv.Itoa(1 + r.Intn(30))
	ns := []string{base + ".bak", base + "." + n + ".gz", base + "." + n + "x", base + ".x" + n, base + "x." + n, "x" + base + "." + n, base + "." + n + "." + n, base + ".", base + n, "." + base, base + "~",
		n + "." + base + ".gz", n + "x." + base, "x" + n + "." + base, n + "." + base + "x", n + base, n + "." + n + "." + base, base + "." + n + " ", base + ".1e3", base + ".0x10", base + ".１", "other.log", "other.log." + n, n + ".other.log", strings.ToUpper(base) + "." + n}
	// the other naming mode
	ns = append(ns, backupName(base, n, !prefix))
	return ns
}

func c08(w *W) {
	r := w.Rng
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		pfx := fmt.Sprintf("d%d", ci)
		dir := filepath.Join(w.Dir, pfx+pick(r, "", "", "", "[ab]", "[", "*", "\\", " ", ".1", "%s", "{a}", "$HOME", "日志"))
		base := pick(r, "rf.log", "app", ".rf.log", "日 志.log", "a.b.log", "7.log", "log.1x", "[rf].log", "r?f*.log", "r\\f.log", " rf .log", "a%d.log", "{a,b}.log", "$HOME.log", "~rf^+(1).log", "-rf.log", "rf\n.log")
		cur := filepath.Join(dir, base)
		prefix := r.Intn(2) == 0
		limit := pick(r, 1, 10, 64, 300)
		N := 1 + r.Intn(20)
		async := r.Intn(6) == 0
		files := map[string]string{}   // model: regular files by name
		foreign := map[string]string{} // state of foreign entries
		put := func(name, text string) {
			os.MkdirAll(dir, 0755)
			if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0644); err != nil {
				fatal("%v", err)
			}
			files[name] = text
		}
		stat := func(name string) string {
			fi, err := os.Lstat(filepath.Join(dir, name))
			if err != nil {
				return "missing"
			}
			return fmt.Sprintf("%v %d %v", fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
		}
		addForeign := func(name string) {
			if _, ok := files[name]; ok || name == base || foreign[name] != "" {
				return
			}
			old := time.Unix(1e9+int64(r.Intn(1e6)), 0)
			switch r.Intn(8) {
			case 0:
				os.MkdirAll(filepath.Join(dir, name, "sub"), 0755)
			case 1:
				os.MkdirAll(dir, 0755)
				os.Symlink("nowhere", filepath.Join(dir, name))
			default:
				put(name, "foreign "+name)
				os.Chtimes(filepath.Join(dir, name), old, old)
			}
			foreign[name] = stat(name)
			w.Count("foreign files", 1)
		}
		isBackup := func(name string) (int, bool) {
			if foreign[name] != "" {
				return 0, false
			}
			roll, ok := rollName(name, base, prefix)
			if !ok {
				return 0, false
			}
			n, err := strconv.Atoi(roll)
			return n, err == nil
		}
		backups := func() []int {
			var ns []int
			for name := range files {
				if n, ok := isBackup(name); ok {
					ns = append(ns, n)
				}
			}
			sort.Ints(ns)
			return ns
		}
		var hist []string
		note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		addBackup := func() {
			n := 1 + r.Intn(pick(r, 9, 9, 30, 200, 100000, 1<<50))
			name := backupName(base, strconv.Itoa(n), prefix)
			if _, ok := files[name]; !ok && foreign[name] == "" {
				put(name, fmt.Sprintf("old %d\n", n))
				note("+%s", name)
			}
		}
		pre := r.Intn(4) > 0
		if pre {
			for k := pick(r, 0, 1, 3, N, 2*N+1); k > 0; k-- {
				addBackup()
			}
			for k := pick(r, 0, 3, 20); k > 0; k-- {
				addForeign(pick(r, foreignNames(base, prefix, r)...))
			}
			if r.Intn(4) == 0 { // more than any listing chunk
				many := 60 + r.Intn(90)
				if r.Intn(8) == 0 {
					many = 200 + r.Intn(1200)
					w.Count("crowded directories", 1)
				}
				for k := many; k > 0; k-- {
					addForeign(fmt.Sprintf("zz%d.txt", k))
				}
			}
			// a directory or link named like a backup is no backup, but its name is taken
			for k := r.Intn(3); k > 0; k-- {
				top := 0
				if bs := backups(); len(bs) > 0 {
					top = bs[len(bs)-1]
				}
				name := backupName(base, strconv.Itoa(max(1, top+pick(r, -1, 1, 1, 2, 3, 5))), prefix)
				if _, ok := files[name]; !ok && foreign[name] == "" {
					os.MkdirAll(dir, 0755)
					if r.Intn(2) == 0 {
						os.Mkdir(filepath.Join(dir, name), 0755)
					} else {
						os.Symlink("nowhere", filepath.Join(dir, name))
					}
					foreign[name] = stat(name)
					note("dir/link %s", name)
					w.Count("backup names taken by others", 1)
				}
			}
			if r.Intn(2) == 0 {
				put(base, strings.Repeat("e", pick(r, 0, 1, limit-1, limit, limit+1)))
				note("current file of %d bytes", len(files[base]))
			}
		}
		rot, dropped := 0, 0
		type bound struct{ limit, n int }
		two := !async && r.Intn(4) == 0
		bounds := []bound{{limit, N}, {pick(r, limit, 1+r.Intn(2*limit)), pick(r, N, 1+r.Intn(4))}}
		writer := 0
		write := func(rec string) { // the model
			limit, N := bounds[writer].limit, bounds[writer].n
			if len(files[base]) >= limit {
				bs := backups()
				n := 1
				if len(bs) > 0 {
					n = bs[len(bs)-1] + 1
				}
				for foreign[backupName(base, strconv.Itoa(n), prefix)] != "" {
					n++
				}
				files[backupName(base, strconv.Itoa(n), prefix)] = files[base]
				delete(files, base)
				bs = append(bs, n)
				for len(bs) > N {
					delete(files, backupName(base, strconv.Itoa(bs[0]), prefix))
					bs = bs[1:]
					dropped++
				}
				rot++
			}
			files[base] += rec
		}
		compare := func(when string) bool {
			got := map[string]string{}
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				if e.Type().IsRegular() {
					got[e.Name()] = readFile(filepath.Join(dir, e.Name()))
				} else if foreign[e.Name()] == "" {
					w.Fail("directory differs", "%s: unexpected entry %s (%v)", when, e.Name(), e.Type())
					return false
				}
			}
			var diff []string
			for n, c := range files {
				if g, ok := got[n]; !ok {
					diff = append(diff, "missing "+n)
				} else if g != c {
					diff = append(diff, fmt.Sprintf("%s has %q, want %q", n, clip(g, 200), clip(c, 200)))
				}
			}
			for n, c := range got {
				if _, ok := files[n]; !ok {
					diff = append(diff, fmt.Sprintf("unexpected %s %q", n, clip(c, 100)))
				}
			}
			for n, s := range foreign {
				if g := stat(n); g != s {
					diff = append(diff, fmt.Sprintf("foreign %s was %s, is %s", n, s, g))
				}
			}
			if len(diff) > 0 {
				sort.Strings(diff)
				w.Fail("directory differs", "case %d size=%d backups=%d prefix=%v file %s, %s: %v; history %v", ci, limit, N, prefix, base, when, diff, hist)
				return false
			}
			return true
		}
		life := 0
		start := func() bool {
			life++
			b := (&Cfg{}).quietRoot(fmt.Sprintf("%sv%d", pfx, life))
			fn := fmt.Sprintf("%sf%d", pfx, life)
			b.format(fn, "%{msg}")
			kv := []string{"file", cur, "size", fmt.Sprint(limit), "backups", fmt.Sprint(N)}
			if prefix {
				kv = append(kv, "name_mode", "prefix")
			}
			if async {
				kv = append(kv, "async", "true", "batch_num", "1")
			}
			b.out(fmt.Sprintf("%so%d", pfx, life), "size_rolling_file", fn, kv...)
			b.logger(pfx, "all", fmt.Sprintf("%so%d", pfx, life))
			if two {
				// another output of the same file, with bounds of its own
				kv[3], kv[5] = fmt.Sprint(bounds[1].limit), fmt.Sprint(bounds[1].n)
				b.out(fmt.Sprintf("%sq%d", pfx, life), "size_rolling_file", fn, kv...)
				b.logger(pfx+"x", "all", fmt.Sprintf("%sq%d", pfx, life))
			}
			if !b.load(w) {
				return false
			}
			if life > 1 {
				w.Count("restarts", 1)
				note("restart")
			}
			return true
		}
		if !start() {
			return
		}
		lgs := []api.Logger{getLogger(pfx), getLogger(pfx + "x")}
		good := true
		for k := 0; k < 20+r.Intn(60) && good; k++ {
			switch x := r.Intn(20); {
			case x == 0:
				if async {
					mgr().Close()
					good = compare("after close")
				}
				good = good && start()
			case x == 1 && !async:
				addForeign(pick(r, foreignNames(base, prefix, r)...))
			case x == 2 && !async:
				addBackup()
			case x == 3 && !async:
				if bs := backups(); len(bs) > 0 { // a backup is taken away
					n := backupName(base, strconv.Itoa(pick(r, bs...)), prefix)
					os.Remove(filepath.Join(dir, n))
					delete(files, n)
					note("-%s", n)
				}
			default:
				n := pick(r, 0, 1, 3, limit-1, limit, limit+1, r.Intn(limit+1))
				rec := strings.Repeat(string(rune('a'+k%26)), n)
				switch r.Intn(6) {
				case 0: // fewer characters than bytes
					rec = strings.Repeat("é", n/2) + rec[:n%2]
				case 1: // no text
					rec = strings.Repeat(pick(r, "\n", "\xff", "\x00", "\r\n", "日\n"), n)[:n]
				}
				if two && r.Intn(3) == 0 {
					writer = 1 - writer
					w.Count("changes of writer", 1)
					note("output %d %v", writer, bounds[writer])
				}
				note("write %d", n)
				lgs[writer].Info(rec)
				write(rec)
				if !async {
					good = compare(fmt.Sprintf("after write %d", k))
				}
			}
		}
		if async && good {
			mgr().Close()
			compare("at the end")
		}
		w.Count("rotations", rot)
		w.Count("backups dropped", dropped)
		key := ""
		if rot > 0 && (dropped > 0 || pre) {
			key = hash(fmt.Sprint(limit, N, prefix, hist))
		}
		w.Eval(key)
		w.Sample("%s size=%d backups=%d prefix=%v async=%v: %s", base, limit, N, prefix, async, strings.Join(hist, ", "))
		os.RemoveAll(dir)
	}
}
