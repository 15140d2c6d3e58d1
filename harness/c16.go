package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Check{
		ID:   "C16",
		Rule: "a case loads one configuration (structure, YAML or JSON) of one to three rolling outputs with independent random settings - size in all units up to terabytes (files just below and at the limit are made sparse beforehand, small limits are also filled by logging), 1 to 20 backups with as many and more backups present before, file/directory/backup permissions from octal strings (with and without quotes in YAML, umask 0), name mode, absolute and relative paths through missing directories - and compares, after every write, the names, sizes, modes and contents of everything in the directories with the model of the settings. Distinct by settings; non-trivial when a rotation happened at the configured limit.",
		Assume: []string{
			"permissions are written with a leading 0; sizes with the suffixes K, M, G or none; values the documentation does not list are not judged",
			"a path does not name a directory; the file system allows sparse files of the size (otherwise the size is capped)",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 24, 120
			if th {
				n, c = 100, 800
			}
			return jobs("set", seed, n, c, map[string]int{"bubble": 1})
		},
		Worker: c16,
		Min:    map[string]int{"evaluations": 1600, "rotations": 2000, "writes just below the limit": 500, "files at the limit": 300, "modes compared": 10000, "directories created": 1500, "unit K": 100, "unit M": 100, "unit G": 100, "unit none": 100, "max size MiB": 1000000, "distinct": 1000},
	})
}

type c16out struct {
	name, dir, base  string // dir: absolute
	prefix, timed    bool
	limit            int64
	backups          int
	fmode, dmode, bm os.FileMode
	def              outDef
	model            map[string]*c16file
	cur              string // name of the current file
	newDirs          []string
	lastN            int
	period           time.Time
	async            bool
	wrote            int
}

type c16file struct {
	size int64
	tail string
	mode os.FileMode
	old  bool
}

func c16(w *W) {
	syscall.Umask(0)
	r := w.Rng
	capSize := int64(4) << 40
	if f, err := os.Create(filepath.Join(w.Dir, "probe")); err == nil {
		for capSize > 1<<20 && f.Truncate(capSize+1000) != nil {
			capSize /= 2
		}
		f.Close()
		os.Remove(f.Name())
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		root := filepath.Join(w.Dir, fmt.Sprintf("s%d", ci))
		os.MkdirAll(root, 0755)
		if r.Intn(2) == 0 {
			os.Chdir(root)
		} else {
			os.Chdir(w.Dir)
		}
		cwd, _ := os.Getwd()
		b := &Cfg{}
		pfx := fmt.Sprintf("s%d", ci)
		b.quietRoot(pfx)
		b.format(pfx+"f", "%{msg}\n")
		var outs []*c16out
		var names []string
		for i := 1 + r.Intn(3); i > 0; i-- {
			o := &c16out{name: fmt.Sprintf("%so%d", pfx, i), model: map[string]*c16file{}, def: outDef{}}
			outs = append(outs, o)
			names = append(names, o.name)
			o.timed = r.Intn(3) == 0
			o.prefix = r.Intn(2) == 0
			o.def["name"], o.def["format"] = o.name, pfx+"f"
			o.def["name_mode"] = ifel(o.prefix, "prefix", "postfix")
			o.def["type"] = ifel(o.timed, "time_rolling_file", "size_rolling_file")
			unit := pick(r, "", "K", "M", "G")
			var mult int64 = map[string]int64{"": 1, "K": 1 << 10, "M": 1 << 20, "G": 1 << 30}[unit]
			n := 1 + r.Int63n(pick(r, int64(3), 12, 100, 1025, 5000, 1<<20))
			if unit == "" && r.Intn(2) == 0 {
				n = 1 + r.Int63n(capSize)
			}
			if n*mult > capSize {
				n = 1 + r.Int63n(capSize/mult)
			}
			o.limit = n * mult
			if o.timed {
				o.def["pattern"] = pick(r, "2006-01-02", "2006.01.02", "20060102")
				o.def["size"] = pick(r, "", "1", "1K")
			} else {
				o.def["size"] = fmt.Sprint(n) + unit
				w.Count("unit "+ifel(unit == "", "none", unit), 1)
				w.CountMax("max size MiB", int(o.limit>>20))
			}
			o.backups = 1 + r.Intn(20)
			if r.Intn(5) == 0 {
				o.backups = pick(r, 1, 20)
			}
			o.def["backups"] = fmt.Sprint(o.backups)
			mode := func(key string, must os.FileMode) os.FileMode {
				m := os.FileMode(1+r.Intn(0777)) | must
				o.def[key] = fmt.Sprintf("0%o", m)
				return m
			}
			o.fmode, o.dmode, o.bm = mode("file_perm", 0), mode("dir_perm", 0), mode("back_perm", 0)
			o.base = pick(r, "rf.log", "a b.log", "log", "ünï.log", "x.1.log", "UP.LOG", ".hidden")
			rel := fmt.Sprintf("o%d", i)
			for k := r.Intn(4); k > 0; k-- {
				rel = filepath.Join(rel, pick(r, "d", "e.f", "log", "a b", "1"))
			}
			o.dir = filepath.Join(root, rel)
			var spell string
			if r.Intn(2) == 0 {
				spell, _ = filepath.Rel(cwd, filepath.Join(o.dir, o.base))
				if r.Intn(3) == 0 {
					spell = "./" + spell
				}
			} else {
				spell = filepath.Join(o.dir, o.base)
				if r.Intn(4) == 0 {
					spell = strings.Replace(spell, "/"+filepath.Base(root)+"/", "//"+filepath.Base(root)+"/./", 1)
				}
			}
			o.def["file"] = spell
			if o.async = r.Intn(4) == 0; o.async {
				o.def["async"] = "true"
				o.def["batch_num"] = "1"
			}
			o.prepare(w)
			if w.Failed() {
				return
			}
			m := map[string]string{}
			for k, v := range o.def {
				if v != "" {
					m[k] = v
				}
			}
			b.c.Outputs = append(b.c.Outputs, m)
		}
		lg := pfx + "lg"
		b.logger(lg, "all", names...)
		x := newCfgWorld(w, pfx+"x")
		ch := x.channelFor(&b.c)
		if err := ch.load(); err != nil {
			w.Fail("valid configuration refused", "%v; %s %q", err, cfgString(&b.c), ch.text)
			return
		}
		l := getLogger(lg)
		key := ""
		for k := 2 + r.Intn(6); k > 0; k-- {
			size := 1 + r.Intn(200)
			if r.Intn(3) == 0 { // fill a small limit exactly
				for _, o := range outs {
					if f := o.model[o.base]; f != nil && !o.timed && o.limit-f.size > 1 && o.limit-f.size < 100000 {
						size = int(o.limit-f.size) - 1 - r.Intn(2)
					}
				}
			}
			if r.Intn(3) == 0 {
				time.Sleep(24 * time.Hour)
			}
			text := payload(recKey{ci, k}, max(size, 0)) + "\n"
			l.Info(text[:len(text)-1])
			settle()
			for _, o := range outs {
				if o.wrote++; o.write(w, text) {
					key = cfgString(&b.c)
				}
				if bad := o.compare(w, root); bad != "" {
					w.Fail("setting not honoured", "%s; output %v; after %d writes; loaded as %s %q", bad, o.def, o.wrote, ch.name, clip(ch.text, 1500))
				}
			}
			if w.Failed() {
				return
			}
		}
		w.Eval(hash(key))
		w.Sample("%s %s", ch.name, cfgString(&b.c))
		os.Chdir(w.Dir)
		// close the outputs and free the disk
		if !(&Cfg{}).quietRoot(pfx + "z").load(w) {
			return
		}
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(root)
	}
}

// prepare may create the directory, a current file and backups.
func (o *c16out) prepare(w *W) {
	r := w.Rng
	o.cur = o.base
	o.period = day(time.Now())
	made := 0
	if r.Intn(3) > 0 {
		os.MkdirAll(o.dir, 0751)
		put := func(name string, size int64, text string, mode os.FileMode) {
			p := filepath.Join(o.dir, name)
			if err := os.WriteFile(p, nil, mode); err != nil {
				fatal("%v", err)
			}
			os.Chmod(p, mode)
			if err := os.Truncate(p, size-int64(len(text))); err != nil {
				fatal("%v", err)
			}
			f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0)
			if err != nil {
				fatal("%v", err)
			}
			f.WriteString(text)
			f.Close()
			o.model[name] = &c16file{size: size, tail: text, mode: mode, old: true}
		}
		if r.Intn(3) > 0 {
			n := r.Intn(o.backups + 4)
			for i := 0; i < n; i++ {
				made++
				roll := strconv.Itoa(made)
				if o.timed {
					roll = time.Now().AddDate(0, 0, i-n-1).Format(o.def["pattern"])
				}
				put(backupName(o.base, roll, o.prefix), int64(10+i), fmt.Sprintf("b%d", i), 0604)
			}
			o.lastN = made
		}
		switch r.Intn(4) {
		case 0, 1:
			put(o.base, max(o.limit-1, 1), "\n"[:min(1, int(o.limit-1))], 0606)
			if o.limit > 1 {
				w.Count("writes just below the limit", 1)
			}
		case 2:
			put(o.base, o.limit+int64(r.Intn(2)), "\n", 0606)
			w.Count("files at the limit", 1)
		}
		if o.timed && o.model[o.base] != nil {
			t := time.Now()
			os.Chtimes(filepath.Join(o.dir, o.base), t, t)
		}
	} else {
		for d := o.dir; len(d) > len(w.Dir); d = filepath.Dir(d) {
			if _, err := os.Stat(d); os.IsNotExist(err) {
				o.newDirs = append(o.newDirs, d)
			}
		}
	}
}

func day(t time.Time) time.Time {
	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
}

// write does to the model what the settings say; it tells whether it rolled.
func (o *c16out) write(w *W, text string) (rolled bool) {
	f := o.model[o.base]
	now := day(time.Now())
	if f != nil && (o.timed && o.period.Before(now) || !o.timed && f.size >= o.limit) {
		roll := ""
		if o.timed {
			roll = o.period.Format(o.def["pattern"])
		} else {
			o.lastN++
			roll = strconv.Itoa(o.lastN)
		}
		delete(o.model, o.base)
		f.mode = o.bm
		f.old = false
		o.model[backupName(o.base, roll, o.prefix)] = f
		w.Count("rotations", 1)
		rolled = true
		var bs []string
		key := map[string]int64{}
		for n := range o.model {
			if n == o.base {
				continue
			}
			s, _ := rollName(n, o.base, o.prefix)
			if o.timed {
				t, _ := time.Parse(o.def["pattern"], s)
				key[n] = t.Unix()
			} else {
				key[n], _ = strconv.ParseInt(s, 10, 64)
			}
			bs = append(bs, n)
		}
		sort.Slice(bs, func(i, j int) bool { return key[bs[i]] < key[bs[j]] })
		for len(bs) > o.backups {
			delete(o.model, bs[0])
			bs = bs[1:]
		}
		f = nil
	}
	o.period = now
	if f == nil {
		f = &c16file{mode: o.fmode}
		o.model[o.base] = f
	}
	f.size += int64(len(text))
	f.tail += text
	return
}

// compare compares the directory with the model.
func (o *c16out) compare(w *W, root string) string {
	for _, d := range o.newDirs {
		fi, err := os.Stat(d)
		if err != nil {
			return fmt.Sprintf("directory %s was not created: %v", d, err)
		}
		// a directory shared with another output may have been made for that one
		if strings.HasPrefix(d, filepath.Join(root, o.name[strings.IndexByte(o.name, 'o'):])) {
			w.Count("modes compared", 1)
			if fi.Mode().Perm() != o.dmode {
				return fmt.Sprintf("directory %s has mode %o, not %o", d, fi.Mode().Perm(), o.dmode)
			}
		}
		if o.wrote == 1 {
			w.Count("directories created", 1)
		}
	}
	es, err := os.ReadDir(o.dir)
	if err != nil {
		return fmt.Sprintf("no directory %s: %v", o.dir, err)
	}
	left := map[string]bool{}
	for n := range o.model {
		left[n] = true
	}
	for _, e := range es {
		m := o.model[e.Name()]
		if m == nil {
			return fmt.Sprintf("unexpected %s in %s (should hold %s)", e.Name(), o.dir, o.names())
		}
		delete(left, e.Name())
		fi, err := e.Info()
		if err != nil {
			fatal("%v", err)
		}
		w.Count("modes compared", 1)
		if fi.Mode() != m.mode {
			return fmt.Sprintf("%s has mode %v, not %v", e.Name(), fi.Mode(), m.mode)
		}
		if fi.Size() != m.size {
			return fmt.Sprintf("%s has %d bytes, not %d", e.Name(), fi.Size(), m.size)
		}
		if got := tailOf(filepath.Join(o.dir, e.Name()), len(m.tail)); got != m.tail {
			return fmt.Sprintf("%s ends in %q, not %q", e.Name(), clip(got, 300), clip(m.tail, 300))
		}
	}
	for n := range left {
		return fmt.Sprintf("%s is missing in %s", n, o.dir)
	}
	return ""
}

func (o *c16out) names() string {
	var ns []string
	for n := range o.model {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return strings.Join(ns, " ")
}

func tailOf(p string, n int) string {
	f, err := os.Open(p)
	if err != nil {
		return err.Error()
	}
	defer f.Close()
	fi, _ := f.Stat()
	b := make([]byte, n)
	k, _ := f.ReadAt(b, max(0, fi.Size()-int64(n)))
	return string(b[:k])
}
