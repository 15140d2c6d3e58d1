package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C20",
		Rule: "a case sends records of all levels through all logging methods from 1-8 goroutines and several loggers to one to three syslog outputs with different prefixes, formats and thresholds (next to a file output) while a stand-in daemon, reached through log/syslog's own code, records datagrams. Each datagram must be one record with the severity of its level, the output's prefix as tag and exactly the rendered text; each record arrives exactly once, except that a record whose call overlaps an outage of the daemon (stopped and restarted up to five times, between records or under load) may be lost; the file output must have everything. Distinct by case; non-trivial when every severity was seen.",
		Assume: []string{
			"local daemon on a datagram socket; the datagram ends in a line end when the record does not (log/syslog adds it)",
			"records up to 60 kB, the prefix is not empty",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 12, 80
			if th {
				n, c = 64, 500
			}
			return append(jobs("content", seed, n, c, nil), append(jobs("restart", seed, n, c/2, nil), jobs("load", seed, n, c/4, nil)...)...)
		},
		Worker: c20,
		Min:    map[string]int{"evaluations": 500, "datagrams": 50000, "severity 7": 5000, "severity 6": 3000, "severity 4": 3000, "severity 3": 3000, "severity 2": 3000, "daemon restarts": 400, "records after a restart": 5000, "records lost in an outage": 300, "neighbouring datagrams of different goroutines": 5000, "distinct": 400},
	})
}

var wantSev = map[api.Level]int{api.Trace: 7, api.Debug: 7, api.Info: 6, api.Warn: 4, api.Error: 3, api.Critical: 2}

type sys20 struct {
	twins, empty int
	tag, layout  string
	thr          api.Level
	hasThr       bool
	loggers      map[int]bool
}

type rec20 struct {
	key       string
	lvl       api.Level
	msg       string
	logger    int
	g         int
	call, ret int64
}

func c20(w *W) {
	quietStderr()
	d := startSyslogd(filepath.Join(w.Dir, "syslog.sock"))
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		c20case(w, d, ci)
	}
}

func c20case(w *W, d *syslogd, ci int) {
	r := w.Rng
	kind := w.Job.Kind
	pfx := fmt.Sprintf("y%d", ci)
	b := (&Cfg{}).quietRoot(pfx)
	nl := 1 + r.Intn(3)
	var outs []*sys20
	on := make([][]string, nl)
	for i := 0; i < 1+r.Intn(3); i++ {
		o := &sys20{loggers: map[int]bool{}}
		o.tag = pfx + pick(r, "app", "my-app", "a.b/c", "x_y", "UPPER", "with space", "ü", "a:b", "p%d", "[x]") + fmt.Sprint(i)
		o.layout = pick(r, "%{msg}", "%{msg}\n", "%{level}|%{module}|%{msg}\n", "<%{lvl}> %{msg} [1]: end", "\n%{msg}\n\n", "%{module} %{msg}")
		th := ""
		if r.Intn(2) == 0 {
			o.hasThr = true
			o.thr = pick(r, recLevels...)
			th = randCase(r, levelNames[o.thr])
		}
		b.format(fmt.Sprintf("%sf%d", pfx, i), o.layout)
		n := fmt.Sprintf("%so%d", pfx, i)
		b.out(n, "syslog", fmt.Sprintf("%sf%d", pfx, i), "prefix", o.tag, "threshold", th)
		for l := range on {
			if r.Intn(2) == 0 || l == 0 {
				on[l] = append(on[l], n)
				o.loggers[l] = true
			}
		}
		outs = append(outs, o)
	}
	b.format(pfx+"ff", "%{msg}\n")
	file := filepath.Join(w.Dir, pfx+".log")
	b.out(pfx+"file", "size_rolling_file", pfx+"ff", "file", file, "size", "1G")
	for l := range on {
		on[l] = append(on[l], pfx+"file")
		r.Shuffle(len(on[l]), func(i, j int) { on[l][i], on[l][j] = on[l][j], on[l][i] })
		b.logger(fmt.Sprintf("%sl%d", pfx, l), "all", on[l]...)
	}
	if !b.load(w) {
		return
	}
	loggers := make([]api.Logger, nl)
	for l := range loggers {
		loggers[l] = getLogger(fmt.Sprintf("%sl%d", pfx, l))
		outputOf(w, fmt.Sprintf("%sl%d", pfx, l), 0)
	}
	var got []string
	var bad []string
	type outage struct{ from, to int64 }
	var outages []outage
	restart := func(down func()) {
		t := tick()
		got = append(got, d.sync()...)
		d.stop()
		if down != nil {
			down()
		}
		d.start()
		outages = append(outages, outage{t, tick()})
		w.Count("daemon restarts", 1)
	}
	G := 1
	if kind == "load" || r.Intn(2) == 0 {
		G = 2 + r.Intn(7)
	}
	per := 20 + r.Intn(60)
	recsBy := make([][]*rec20, G)
	logOne := func(r *rand.Rand, g, i int) {
		size := r.Intn(pick(r, 10, 200, 200, 200, 3000))
		if r.Intn(300) == 0 {
			size = 60000
		}
		key := fmt.Sprintf("R%d.%d.", g, i)
		msg := key + payload(recKey{g, i}, size)
		if r.Intn(4) == 0 {
			msg += pick(r, "\n", "\x00", "é世", "\nline 2\n", "<13>x", "\r", "%d%s", "a[1]: b", "", "\r\n", "\t", "\x1b[31m", "\x7f", "\xff\xfe", "\u200b", "\ufeff", "  two  blanks  ", "\\n", `"`, "#011", "\b\a\v\f", "e\u0301", "\n\n\n", "\u2028")
		}
		msg += ";"
		c := logCalls[r.Intn(len(logCalls))]
		x := &rec20{key: key, lvl: c.lvl, msg: msg, logger: r.Intn(nl), g: g}
		recsBy[g] = append(recsBy[g], x)
		x.call = tick()
		c.f(loggers[x.logger], msg)
		atomic.StoreInt64(&x.ret, tick())
	}
	var seq atomic.Int64
	seeds := make([]int64, G)
	for g := range seeds {
		seeds[g] = r.Int63()
	}
	burst := func(n int) {
		base := int(seq.Add(int64(n))) - n
		par(G, func(g int) {
			rr := rand.New(rand.NewSource(seeds[g] + int64(base)))
			for i := 0; i < n; i++ {
				logOne(rr, g, base+i)
			}
		})
	}
	twins := 0
	switch kind {
	case "content":
		burst(per)
		// records which are all alike
		twins = 1 + r.Intn(5)
		for i := 0; i < twins; i++ {
			loggers[0].Critical(twin)
			loggers[0].Critical("")
		}
	case "restart":
		burst(1 + r.Intn(10))
		for k := 1 + r.Intn(5); k > 0; k-- {
			if r.Intn(3) == 0 {
				restart(nil)
			} else {
				restart(func() { burst(1 + r.Intn(8)) })
			}
			burst(1 + r.Intn(10))
			if r.Intn(3) == 0 {
				got = append(got, d.sync()...)
			}
		}
	case "load":
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seeds[g]))
				for i := 0; i < 400; i++ {
					select {
					case <-stop:
						if i > 20 {
							return
						}
					default:
					}
					logOne(rr, g, i)
				}
			}(g)
		}
		for k := 0; k < 3; k++ {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			wait := time.Duration(r.Intn(1000)) * time.Microsecond
			restart(func() { time.Sleep(wait) })
		}
		close(stop)
		wg.Wait()
		burst20 := make(chan struct{})
		close(burst20)
		for g := 0; g < G; g++ {
			rr := rand.New(rand.NewSource(seeds[g]))
			for i := 1000; i < 1005; i++ {
				logOne(rr, g, i)
			}
		}
	}
	got = append(got, d.sync()...)
	// what must be there
	byKey := map[string]*rec20{}
	var all []*rec20
	for _, rs := range recsBy {
		for _, x := range rs {
			byKey[x.key] = x
			all = append(all, x)
		}
	}
	seen := map[string]int{}
	lastG := -1
	sevs := map[int]bool{}
	pid := fmt.Sprintf("[%d]: ", os.Getpid())
	for _, raw := range got {
		w.Count("datagrams", 1)
		var pri int
		if n, _ := fmt.Sscanf(raw, "<%d>", &pri); n != 1 {
			bad = append(bad, fmt.Sprintf("no priority: %q", clip(raw, 300)))
			continue
		}
		var o *sys20
		oi, at := 0, -1
		for i, c := range outs {
			if k := strings.Index(raw, " "+c.tag+pid); k >= 0 && (at < 0 || k < at) {
				o, oi, at = c, i, k
			}
		}
		if o == nil {
			bad = append(bad, fmt.Sprintf("no known tag: %q", clip(raw, 300)))
			continue
		}
		text := raw[at+1+len(o.tag)+len(pid):]
		if strings.Contains(text, twin) {
			o.twins++
			continue
		}
		if e := strings.NewReplacer("%{msg}", "", "%{level}", levelNames[api.Critical], "%{lvl}", shortNames[api.Critical], "%{module}", pfx+"l0").Replace(o.layout); text == e || text == e+"\n" {
			o.empty++
			continue
		}
		k := strings.Index(text, "R")
		var x *rec20
		for k >= 0 && x == nil {
			var g, i int
			if n, _ := fmt.Sscanf(text[k:], "R%d.%d.", &g, &i); n == 2 {
				x = byKey[fmt.Sprintf("R%d.%d.", g, i)]
			}
			if j := strings.Index(text[k+1:], "R"); j >= 0 {
				k += 1 + j
			} else {
				break
			}
		}
		if x == nil {
			bad = append(bad, fmt.Sprintf("no record in it: %q", clip(raw, 300)))
			continue
		}
		want := strings.NewReplacer("%{msg}", x.msg, "%{level}", levelNames[x.lvl], "%{lvl}", shortNames[x.lvl], "%{module}", fmt.Sprintf("%sl%d", pfx, x.logger)).Replace(o.layout)
		if text != want && text != want+"\n" {
			bad = append(bad, fmt.Sprintf("message %q, should be %q", clip(text, 400), clip(want, 400)))
			continue
		}
		if pri&7 != wantSev[x.lvl] {
			bad = append(bad, fmt.Sprintf("%s record with severity %d, should be %d", levelNames[x.lvl], pri&7, wantSev[x.lvl]))
			continue
		}
		if !o.loggers[x.logger] || o.hasThr && rank(x.lvl) < rank(o.thr) {
			bad = append(bad, fmt.Sprintf("record %s should not be sent with tag %s", x.key, o.tag))
			continue
		}
		sevs[pri&7] = true
		w.Count(fmt.Sprintf("severity %d", pri&7), 1)
		if lastG >= 0 && lastG != x.g {
			w.Count("neighbouring datagrams of different goroutines", 1)
		}
		lastG = x.g
		seen[fmt.Sprint(oi, x.key)]++
	}
	for i, s := range bad {
		if i < 2 {
			w.Fail("wrong syslog message", "case %d (%s): %s; %d more", ci, kind, s, len(bad)-1)
		}
	}
	for _, o := range outs {
		if o.twins != twins && len(bad) == 0 {
			w.Fail(ifel(o.twins < twins, "syslog record lost", "syslog record duplicated"), "case %d (%s): of %d records which are all alike %d were sent to %s", ci, kind, twins, o.twins, o.tag)
		}
	}
	for _, o := range outs {
		if o.empty != twins && len(bad) == 0 {
			w.Fail(ifel(o.empty < twins, "syslog record lost", "syslog record duplicated"), "case %d (%s): of %d records with an empty message %d were sent to %s", ci, kind, twins, o.empty, o.tag)
		}
	}
	w.Count("records which are all alike", 2*twins)
	fileText := readFile(file)
	if n := strings.Count(fileText, twin+"\n"); n != twins {
		w.Fail("other output affected", "case %d (%s): %d of %d records which are all alike are in the file next to syslog", ci, kind, n, twins)
	}
	for _, x := range all {
		out := false
		late := false
		for _, u := range outages {
			out = out || x.call < u.to && x.ret > u.from
			late = late || x.call > u.to
		}
		for oi, o := range outs {
			if !o.loggers[x.logger] || o.hasThr && rank(x.lvl) < rank(o.thr) {
				continue
			}
			n := seen[fmt.Sprint(oi, x.key)]
			if n == 1 && late {
				w.Count("records after a restart", 1)
			}
			if n == 0 && out {
				w.Count("records lost in an outage", 1)
				continue
			}
			if n != 1 && len(bad) == 0 {
				w.Fail(ifel(n == 0, "syslog record lost", "syslog record duplicated"), "case %d (%s): record %s at %s sent %d times to %s (call %d-%d, outages %v)", ci, kind, x.key, levelNames[x.lvl], n, o.tag, x.call, x.ret, outages)
				return
			}
		}
		if strings.Count(fileText, x.msg+"\n") != 1 {
			w.Fail("other output affected", "case %d (%s): record %s is not (once) in the file next to syslog", ci, kind, x.key)
			return
		}
	}
	os.Remove(file)
	key := ""
	if len(sevs) >= 3 {
		key = fmt.Sprintf("%d %s %d", w.Job.Seed, kind, ci)
	}
	w.Eval(key)
	w.Sample("%s: %d goroutines, %d records, %d datagrams, tags of %d outputs, outages %v", kind, G, len(all), len(got), len(outs), outages)
}
