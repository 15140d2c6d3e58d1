//go:build oshook

package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID: "C30",
		Rule: "stall: the destination of one output (console, size or time rolling file, synchronous or asynchronous, syslog) stops in the middle of a file operation (write, open, rename, listing, any) or stops receiving, while 1-8 goroutines log to it. While it stands still, another goroutine makes calls that need not wait for it: records to other outputs (some in the same directory), records below the logger's level or the output's threshold, level queries and changes, skips, writers with fields and contexts, lookups of known and new loggers, other outputs for descendants, loads that keep the output, refused loads, and at last a load that drops it - each must return, with the right effect. " +
			"At an asynchronous output with queue_size Q and batch_num B no call may wait while fewer than Q records are waiting, and at most Q+B may have returned unwritten. After the destination goes on every call returns and every record is there once and in order. " +
			"long: the destination of an asynchronous output stands still for milliseconds to weeks of virtual time, again and again, while 1-6 goroutines log; every call returns when it goes on, and every record is there once and in order. " +
			"batch: in virtual time a file that rolls with every write shows what is written at once: exactly B records, or fewer at a flush by the timer or at the end. Non-trivial when calls were waiting; distinct by configuration and history.",
		Assume: []string{
			"a destination stands still at the entry points of package os, or with the daemon's queue full",
			"a call that has not returned after 30 s, blocked in the library on a lock or a channel, waits for the destination",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 24, 40
			if th {
				n, c = 150, 200
			}
			js := jobs("stall", seed, n, c, nil)
			js = append(js, jobs("long", seed, n/2, c, map[string]int{"bubble": 1})...)
			return append(js, jobs("batch", seed, n, c, map[string]int{"bubble": 1})...)
		},
		Worker:  c30,
		Timeout: 120 * time.Second,
		Min:     map[string]int{"evaluations": 800, "destinations that stood still": 300, "calls that need not wait": 10000, "calls that had to wait": 500, "queues filled": 100, "batches": 10000, "partial batches": 1000, "calls that waited long": 500, "distinct": 500},
	})
}

func c30(w *W) {
	r := w.Rng
	quietStderr()
	useHook(w.Dir)
	var d *syslogd
	if w.Job.Kind == "stall" {
		d = startSyslogd(filepath.Join(w.Dir, "sl"))
	} else {
		time.Sleep(time.Duration(r.Int63n(int64(10 * 365 * 24 * time.Hour))))
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		switch w.Job.Kind {
		case "stall":
			c30stall(w, r, d, ci)
		case "batch":
			c30batch(w, r, ci)
		case "long":
			c30long(w, r, ci)
		}
		setHook(nil)
	}
}

// alias gives another name of a file, which the hook does not know.
func alias(p string) string { return "/proc/self/root" + p }

// waitingCall tells whether the goroutine running a function of that name is blocked, and its stack.
func waitingCall(fn string) (bool, string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, fn+"(") {
			continue
		}
		m := gorRe.FindStringSubmatch(g)
		if m == nil || !strings.Contains(g, libPkg) {
			continue
		}
		for _, s := range []string{"chan send", "chan receive", "select", "semacquire", "sync.", "sleep", "IO wait"} {
			if strings.HasPrefix(m[1], s) {
				return true, g
			}
		}
	}
	return false, ""
}

//go:noinline
func c30free(what *atomic.Value, name string, f func()) {
	what.Store(name)
	f()
}

//go:noinline
func c30blocker(f func()) { f() }

// eventually waits until cond, for at most 30 s and then as long as the goroutine is not seen blocked.
func eventually(fn string, cond func() bool) (ok bool, stack string) {
	for t := time.Now(); !cond(); {
		if time.Since(t) > 30*time.Second {
			if b, g := waitingCall(fn); b && !cond() {
				return false, g
			}
			if time.Since(t) > 80*time.Second {
				return true, "" // too busy to tell
			}
			time.Sleep(time.Second)
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true, ""
}

func c30stall(w *W, r *rand.Rand, d *syslogd, ci int) {
	pfx := fmt.Sprintf("h%d", ci)
	dirS, dirO := filepath.Join(w.Dir, pfx), filepath.Join(w.Dir, pfx+"o")
	sameDir := r.Intn(2) == 0
	if sameDir {
		dirO = dirS
	}
	os.Mkdir(dirS, 0755)
	os.Mkdir(dirO, 0755)
	defer os.RemoveAll(dirS)
	defer os.RemoveAll(dirO)
	kind := pick(r, "console", "size", "size", "time", "rotate", "rotate", "syslog")
	async := kind != "syslog" && r.Intn(3) > 0
	Q, B := pick(r, 1, 2, 5, 10, 50, 200, 1000, 3000), pick(r, 1, 2, 5, 20, 100, 500)
	thr := pick(r, "", "", "warn")
	stallOp := "write"
	if kind == "rotate" {
		stallOp = pick(r, "write", "rename", "open", "close", "chmod", "any", "remove")
	} else if kind == "size" || kind == "time" {
		stallOp = pick(r, "write", "write", "any")
	}
	opts := streamOpts{}
	var hist []string
	var histMu sync.Mutex
	note := func(f string, a ...any) {
		histMu.Lock()
		hist = append(hist, fmt.Sprintf(f, a...))
		histMu.Unlock()
	}
	file := filepath.Join(dirS, "rf.log")
	read := func() string { return readFile(alias(file)) }
	var so *os.File
	build := func(v int, withS bool) *Cfg {
		b := (&Cfg{}).quietRoot(pfx)
		b.format(pfx+"f", "%{msg}\n")
		kv := []string{"threshold", thr}
		if async {
			kv = append(kv, "async", "true", "queue_size", fmt.Sprint(Q), "batch_num", fmt.Sprint(B))
		}
		if withS {
			switch kind {
			case "console":
				b.out(pfx+"s", "console", pfx+"f", kv...)
			case "size":
				b.out(pfx+"s", "size_rolling_file", pfx+"f", append(kv, "file", file, "size", "1G")...)
			case "rotate":
				b.out(pfx+"s", "size_rolling_file", pfx+"f", append(kv, "file", file, "size", "50", "backups", "3")...)
			case "time":
				b.out(pfx+"s", "time_rolling_file", pfx+"f", append(kv, "file", file, "pattern", "2006")...)
			case "syslog":
				b.out(pfx+"s", "syslog", pfx+"f", append(kv, "prefix", pfx)...)
			}
			b.logger(pfx, "debug", pfx+"s")
			b.logger(pfx+"/both", "debug", pfx+"s", pfx+"m")
		} else {
			b.logger(pfx, "debug", pfx+"m")
		}
		b.out(pfx+"m", "memory", pfx+"f")
		b.out(pfx+"o", "size_rolling_file", pfx+"f", "file", filepath.Join(dirO, "other.log"), "size", "1G")
		b.out(pfx+"a", "size_rolling_file", pfx+"f", "file", filepath.Join(dirO, "async.log"), "size", "1G", "async", "true")
		b.logger(pfx+"x", "debug", pfx+"m", pfx+"o", pfx+"a")
		if v > 0 {
			b.out(fmt.Sprintf("%sv%d", pfx, v), "memory", pfx+"f")
			b.logger(fmt.Sprintf("%sn%d", pfx, v), pick(r, "info", "all"), fmt.Sprintf("%sv%d", pfx, v))
		}
		return b
	}
	ok := false
	load := func() {
		if !build(0, true).load(w) || outputOf(w, pfx, 0) == nil || outputOf(w, pfx+"x", 2) == nil {
			return
		}
		ok = true
	}
	if kind == "console" {
		so, _ = os.OpenFile(file, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		defer so.Close()
		withStdout(so, load)
	} else {
		load()
	}
	if !ok {
		return
	}
	switch kind {
	case "rotate":
		read = func() string {
			s, bk := sizeStream(alias(dirS), "rf.log", false)
			opts.oldestOK = len(bk) >= 3
			return s
		}
	case "time":
		read = func() string { return timeStream(alias(dirS), "rf.log", "2006") }
	case "syslog":
		var got strings.Builder
		read = func() string {
			for _, raw := range d.sync() {
				if m, ok := parseSyslog(raw); ok && m.tag == pfx {
					got.WriteString(m.text)
				}
			}
			return got.String()
		}
	}
	A, X, child := getLogger(pfx), getLogger(pfx+"x"), getLogger(pfx+"/child")
	memOut, sOut := outputOf(w, pfx+"x", 0), outputOf(w, pfx, 0)
	fail := func(sig, f string, a ...any) {
		histMu.Lock()
		h := strings.Join(hist, "; ")
		histMu.Unlock()
		w.Fail(sig, "case %d %s async=%v queue_size=%d batch_num=%d threshold=%q stopped in %s: %s; history %s", ci, kind, async, Q, B, thr, stallOp, fmt.Sprintf(f, a...), h)
	}
	st := newStream()
	var returned atomic.Int64
	send := func(k recKey) {
		st.log(k, k.seq%30, func(m string) {
			if k.seq%2 == 0 {
				A.Warn(m)
			} else {
				child.Errorf("%s", m)
			}
		})
		returned.Add(1)
	}
	for i, n := 0, r.Intn(2*B+2); i < n && i < 100; i++ {
		send(recKey{0, i})
	}
	// the destination stands still
	release := make(chan struct{})
	entered := make(chan struct{})
	var once sync.Once
	lines := func() int64 { return int64(strings.Count(read(), "\n")) }
	written := int64(0)
	if kind == "syslog" {
		d.pause()
	} else {
		if kind != "rotate" {
			written = lines()
		}
		setHook(func(op, p, p2 string) error {
			if !strings.HasPrefix(p, dirS+"/rf.log") || op != stallOp && stallOp != "any" {
				return nil
			}
			once.Do(func() { close(entered) })
			<-release
			return nil
		})
	}
	var released atomic.Bool
	free := func() { // at the end of the case, whatever happened
		if !released.Swap(true) {
			setHook(nil)
			close(release)
			if kind == "syslog" {
				d.resume()
			}
		}
	}
	defer free()
	G := 1 + r.Intn(8)
	var stop atomic.Bool
	var wg sync.WaitGroup
	var done atomic.Int64
	for g := 1; g <= G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			c30blocker(func() {
				for k := 0; !stop.Load() && k < 20000; k++ {
					send(recKey{g, k})
				}
			})
			done.Add(1)
		}(g)
	}
	still := false
	if kind != "syslog" {
		select {
		case <-entered:
			still = true
		case <-time.After(10 * time.Second):
		}
	} else {
		last := int64(-1)
		for t := time.Now(); time.Since(t) < 10*time.Second && !still; {
			time.Sleep(5 * time.Millisecond)
			n := returned.Load()
			still, last = n == last, n
		}
	}
	if still {
		w.Count("destinations that stood still", 1)
	} else { // the operation never happened
		w.Count("destinations that went on", 1)
	}
	if still && async && kind != "rotate" {
		need := int64(Q) + written
		if ok, g := eventually("c30blocker", func() bool { return returned.Load() >= need }); !ok {
			fail("a call waits although the queue is not full", "%d calls returned, %d records were written, a call waits:\n%s", returned.Load(), lines(), clip(g, 1500))
			stop.Store(true)
			free()
			wg.Wait()
			return
		}
		w.Count("queues filled", 1)
	}
	var dropping, dropped atomic.Bool
	tooMany := func() bool {
		if !still || !async || kind == "rotate" || dropping.Load() {
			return false
		}
		if n, wr := returned.Load(), lines(); n > int64(Q+B)+wr {
			fail("too many records wait", "%d calls returned, %d records were written", n, wr)
			return true
		}
		return false
	}
	tooMany()
	// what need not wait
	var what atomic.Value
	var calls atomic.Int64
	var finished atomic.Bool
	var bad atomic.Value
	expX, expM := []string{}, []string{} // lines at the outputs of X, at the memory output
	seed := r.Int63()
	rounds := 10 + r.Intn(40)
	drop := r.Intn(2) == 0
	nb := 0
	go func() {
		defer finished.Store(true)
		r := rand.New(rand.NewSource(seed))
		v := 0
		must := func(c bool, f string, a ...any) {
			if !c {
				bad.CompareAndSwap(nil, fmt.Sprintf(f, a...))
			}
		}
		for i := 0; i < rounds && bad.Load() == nil; i++ {
			k := r.Intn(13)
			if dropping.Load() && (k == 9 || k == 10 || k == 11) {
				k = 0 // a load may wait for the one under way
			}
			if drop && i == rounds-5 {
				dropping.Store(true)
				note("load that drops the output")
				b := build(0, false)
				go func() { b.load(w); dropped.Store(true) }()
				time.Sleep(time.Millisecond)
				continue
			}
			switch k {
			case 0:
				m := fmt.Sprintf("x%d", i)
				c30free(&what, "a record for other outputs", func() { X.Info(m) })
				expX, expM = append(expX, m), append(expM, m)
			case 1:
				c30free(&what, "a record below the level", func() { A.Trace("t"); child.Tracef("%d", i) })
			case 2:
				if thr == "" || dropping.Load() {
					continue
				}
				m := fmt.Sprintf("t%d", i)
				c30free(&what, "a record below the threshold", func() { A.Info("below"); getLogger(pfx+"/both").Infof("%s", m) })
				expM = append(expM, m)
			case 3:
				if dropping.Load() {
					continue
				}
				c30free(&what, "level queries", func() {
					must(A.LevelEnabled(api.Debug) && !A.TraceEnabled() && A.Level() == api.Debug, "levels of the logger: debug enabled %v, trace enabled %v, level %v", A.LevelEnabled(api.Debug), A.TraceEnabled(), A.Level())
				})
			case 4:
				c30free(&what, "SetLevel", func() {
					l := getLogger(pfx + "/child/lv")
					l.SetLevel(api.Critical)
					if !dropping.Load() {
						must(l.Level() == api.Critical && !l.ErrorEnabled(), "level of the descendant after SetLevel(Critical): %v", l.Level())
					}
					l.Error("x")
					l.SetLevel(api.Debug)
				})
			case 5:
				c30free(&what, "SetCallerSkip", func() { A.SetCallerSkip(1 + r.Intn(2)); child.SetCallerSkip(0) })
			case 6:
				c30free(&what, "WithFields and WithCtx", func() {
					A.WithFields(api.Field{Key: "a", Value: i}).Trace("t")
					A.WithCtx(context.WithValue(context.Background(), "k", i)).Trace("t")
				})
			case 7:
				c30free(&what, "lookups", func() {
					must(getLogger(pfx) == A, "another logger of that name")
					for _, n := range []string{pfx, pfx + "x", "other" + pfx, pfx + "/child"} {
						l := getLogger(fmt.Sprintf("%s/l%d", n, i))
						must(l != nil && l.DebugEnabled() || n == "other"+pfx, "a new logger is at level %v", l.Level())
					}
				})
			case 8:
				m := fmt.Sprintf("s%d", i)
				c30free(&what, "SetOutputs", func() {
					l := getLogger(fmt.Sprintf("%s/own%d", pfx, i))
					l.SetOutputs([]api.Output{memOut})
					l.Warn(m)
				})
				expM = append(expM, m)
			case 9:
				v++
				note("load %d", v)
				b := build(v, true)
				c30free(&what, "a load that keeps the output", func() { b.load(w) })
				c30free(&what, "lookups after a load", func() {
					l := getLogger(fmt.Sprintf("%sn%d", pfx, v))
					l.Info("n")
					must(strings.Contains(memText(outputOf(w, fmt.Sprintf("%sn%d", pfx, v), 0)), "n\n"), "a logger of the new configuration has no records")
				})
			case 10:
				c30free(&what, "a refused load", func() {
					must(mgr().SetConfig(&api.Config{Loggers: []api.CfgLogger{{Name: pfx, Level: "all", OutputNames: []string{"nothing"}}}}) != nil, "a configuration with an unknown output is accepted")
					must(mgr().LoadConfig([]byte("{"), "json") != nil, "unparsable text is accepted")
				})
			case 11:
				if dropping.Load() {
					continue
				}
				c30free(&what, "outputs of a logger", func() {
					o, l, err := mgr().GetLoggerOutputs(pfx)
					must(err == nil && len(o) == 1 && o[0] == sOut && l == api.Debug, "GetLoggerOutputs: %d outputs, level %v, %v", len(o), l, err)
				})
			case 12:
				c30free(&what, "registrations", func() {
					mgr().RegisterOutputCreator("c30", func(api.CfgOutput) (api.Output, error) { return nil, errors.New("no") })
				})
			}
			calls.Add(1)
		}
	}()
	if ok, g := eventually("c30free", finished.Load); !ok {
		fail("a call waits for a destination it does not use", "%v does not return:\n%s", what.Load(), clip(g, 2500))
		stop.Store(true)
		free()
		wg.Wait()
		return
	}
	if !finished.Load() {
		w.Inconclusive("case %d: no progress", ci)
		return
	}
	if b := bad.Load(); b != nil {
		fail("a call made meanwhile has no or another effect", "%v", b)
	}
	w.Count("calls that need not wait", int(calls.Load()))
	tooMany()
	if still {
		nb = G - int(done.Load())
		w.Count("calls that had to wait", nb)
	}
	// and goes on
	stop.Store(true)
	free()
	allDone := make(chan struct{})
	go func() { wg.Wait(); close(allDone) }()
	over := func() bool {
		select {
		case <-allDone:
			return !dropping.Load() || dropped.Load()
		default:
			return false
		}
	}
	if ok, g := eventually("c30blocker", over); !ok {
		fail("a call does not return after the destination went on", "%s", clip(g, 2500))
		return
	}
	if !over() {
		w.Inconclusive("case %d: calls do not end", ci)
		return
	}
	if !dropping.Load() {
		closed := make(chan struct{})
		go func() { sOut.Close(); close(closed) }()
		select {
		case <-closed:
		case <-time.After(60 * time.Second):
			w.Inconclusive("case %d: close takes long", ci)
			return
		}
	} else { // records after the load went to the memory output; those on their way may be missing
		opts.mayMiss = func(*stamp) bool { return true }
		opts.noOrder = true
	}
	if sig, msg, _ := st.check(read(), nil, opts); sig != "" {
		fail(sig, "%s", msg)
	}
	if o := outputOf(w, pfx+"x", 2); o != nil {
		o.Close()
	}
	want := strings.Join(append(expX, ""), "\n")
	for _, n := range []string{"other.log", "async.log"} {
		if got := readFile(filepath.Join(dirO, n)); got != want {
			fail("records at another output", "%s holds %q, logged were %q", n, clip(got, 400), clip(want, 400))
		}
	}
	var gotM []string
	for _, l := range strings.Split(memText(memOut), "\n") {
		if l != "" && !strings.HasPrefix(l, "R") && l != "below" {
			gotM = append(gotM, l)
		}
	}
	if strings.Join(gotM, "\n") != strings.Join(expM, "\n") {
		fail("records at another output", "the memory output holds %q, logged were %q", clip(strings.Join(gotM, " "), 400), clip(strings.Join(expM, " "), 400))
	}
	key := ""
	if still && nb > 0 {
		key = hash(fmt.Sprint(kind, async, Q, B, thr, stallOp, G, hist, sameDir, seed))
	}
	w.Eval(key)
	w.Sample("%s async=%v Q=%d B=%d threshold=%q stopped in %s: %d goroutines, %d calls returned meanwhile of which %d needed no waiting, dropped=%v", kind, async, Q, B, thr, stallOp, G, returned.Load(), calls.Load(), dropped.Load())
}

// c30batch: a file that rolls with every write shows the writes.
func c30batch(w *W, r *rand.Rand, ci int) {
	pfx := fmt.Sprintf("b%d", ci)
	dir := filepath.Join(w.Dir, pfx)
	defer os.RemoveAll(dir)
	Q, B := pick(r, 1, 2, 10, 100, 1000), pick(r, 1, 2, 3, 5, 20, 50, 120, 500)
	b := (&Cfg{}).quietRoot(pfx)
	b.format(pfx+"f", "%{msg}\n")
	b.out(pfx+"o", "size_rolling_file", pfx+"f", "file", filepath.Join(dir, "rf.log"), "size", "1", "backups", "20", "async", "true", "queue_size", fmt.Sprint(Q), "batch_num", fmt.Sprint(B))
	b.logger(pfx, "all", pfx+"o")
	if !b.load(w) || outputOf(w, pfx, 0) == nil {
		return
	}
	lg := getLogger(pfx)
	var hist []string
	var writes []int // records in each write
	lastFile, lastN := 0, 0
	// see what was written since, by the numbers of the backups
	see := func() bool {
		settle()
		_, bk := sizeStream(dir, "rf.log", false)
		next := 1
		if len(bk) > 0 {
			next = bk[len(bk)-1] + 1
		}
		// file number next is the current one
		for n := lastFile; n <= next; n++ {
			name := backupName("rf.log", fmt.Sprint(n), false)
			if n == next {
				name = "rf.log"
			}
			t := readFile(filepath.Join(dir, name))
			c := strings.Count(t, "\n")
			if n == lastFile {
				if c != lastN && n > 0 {
					w.Fail("written into a file at its limit", "case %d batch_num=%d: write %d had %d records, now its file has %d; history %v", ci, B, n, lastN, c, hist)
					return false
				}
				continue
			}
			if c > 0 {
				writes = append(writes, c)
			}
		}
		if n := strings.Count(readFile(filepath.Join(dir, "rf.log")), "\n"); next > lastFile && n > 0 {
			lastFile, lastN = next, n
		}
		return true
	}
	waiting := 0
	seq := 0
	for op := 0; op < 15; op++ {
		G := pick(r, 1, 1, 2, 4)
		n := pick(r, 1, 2, B-1, B, B+1, 2*B, 3*B+1, r.Intn(5*B))
		if n > 15*B { // the backups would not suffice
			n = 15 * B
		}
		n = n / G * G
		base := seq
		seq += n
		t := time.Now()
		par(G, func(g int) {
			for k := 0; k < n/G; k++ {
				lg.Info(fmt.Sprintf("r%d", base+g*(n/G)+k))
			}
		})
		hist = append(hist, fmt.Sprintf("%d records by %d", n, G))
		writes = nil
		if !see() {
			return
		}
		if time.Now() != t {
			w.Fail("a call waits", "case %d queue_size=%d batch_num=%d: %d records took %v; history %v", ci, Q, B, n, time.Since(t), hist)
			return
		}
		// no time has passed: full batches only
		sum := 0
		for _, c := range writes {
			sum += c
			if c != B {
				w.Fail("not one batch", "case %d queue_size=%d batch_num=%d: after %d waiting and %d more records the destination was given %v; history %v", ci, Q, B, waiting, n, writes, hist)
				return
			}
		}
		w.Count("batches", len(writes))
		waiting += n - sum
		if waiting >= B || waiting < 0 {
			w.Fail("a full batch waits", "case %d queue_size=%d batch_num=%d: %d records wait, given were %v; history %v", ci, Q, B, waiting, writes, hist)
			return
		}
		if r.Intn(2) == 0 {
			time.Sleep(pick(r, 10*time.Second, time.Minute, 11*time.Hour))
			hist = append(hist, "quiet")
			writes = nil
			if !see() {
				return
			}
			if waiting == 0 && len(writes) > 0 || waiting > 0 && (len(writes) != 1 || writes[0] != waiting) {
				w.Fail("not one flush", "case %d queue_size=%d batch_num=%d: %d records waited when a quiet period began, given were %v; history %v", ci, Q, B, waiting, writes, hist)
				return
			}
			if waiting > 0 {
				w.Count("partial batches", 1)
			}
			waiting = 0
		}
	}
	writes = nil
	outputOf(w, pfx, 0).Close()
	if !see() {
		return
	}
	if waiting == 0 && len(writes) > 0 || waiting > 0 && (len(writes) != 1 || writes[0] != waiting) {
		w.Fail("not one flush", "case %d queue_size=%d batch_num=%d: %d records waited at the end, given were %v; history %v", ci, Q, B, waiting, writes, hist)
		return
	}
	if waiting > 0 {
		w.Count("partial batches", 1)
	}
	w.Eval(hash(fmt.Sprint(Q, B, hist)))
	w.Sample("batch: Q=%d B=%d: %s", Q, B, strings.Join(hist, ", "))
}

func c30long(w *W, r *rand.Rand, ci int) {
	pfx := fmt.Sprintf("g%d", ci)
	b := (&Cfg{}).quietRoot(pfx)
	b.format(pfx+"f", "%{msg}\n")
	Q, B := pick(r, 1, 2, 5, 20, 100), pick(r, 1, 2, 3, 10, 50)
	ds := addSlowDst(w, b, pick(r, "console", "size", "time", "rotate"), pfx+"o", pfx+"f", "queue_size", fmt.Sprint(Q), "batch_num", fmt.Sprint(B))
	defer ds.close(w)
	b.logger(pfx, "all", ds.name)
	if !loadSlow(w, b, pfx, []*slowDst{ds}) {
		return
	}
	lg := getLogger(pfx)
	var mu sync.Mutex
	rr := rand.New(rand.NewSource(r.Int63()))
	var stalls []time.Duration
	setHook(func(op, path, path2 string) error {
		if op != "write" {
			return nil
		}
		mu.Lock()
		d := time.Duration(0)
		if rr.Intn(2) == 0 {
			d = time.Duration(rr.Int63n(int64(pick(rr, time.Second, time.Minute, time.Hour, 24*time.Hour, 30*24*time.Hour))))
			stalls = append(stalls, d)
		}
		mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		return nil
	})
	st := newStream()
	G := 1 + r.Intn(6)
	per := 1 + r.Intn(3*(Q+B)/G+10)
	var waited, longest atomic.Int64
	par(G, func(g int) {
		for k := 0; k < per; k++ {
			st.log(recKey{g, k}, (k*7+g)%40, func(m string) {
				t := time.Now()
				lg.Info(m)
				if d := time.Since(t); d > 0 {
					waited.Add(1)
					for l := longest.Load(); int64(d) > l && !longest.CompareAndSwap(l, int64(d)); l = longest.Load() {
					}
				}
			})
		}
	})
	outputOf(w, pfx, 0).Close()
	setHook(nil)
	sig, msg, info := st.check(ds.read(), nil, streamOpts{})
	if sig != "" {
		w.Fail(sig, "case %d %s queue_size=%d batch_num=%d goroutines=%d x %d, destination stood still for %v, calls waited for up to %v: %s", ci, ds.kind, Q, B, G, per, stalls, time.Duration(longest.Load()), msg)
	}
	w.Count("calls that waited long", int(waited.Load()))
	key := ""
	if waited.Load() > 0 {
		key = hash(fmt.Sprint(ds.kind, Q, B, G, per, stalls, info.order))
	}
	w.Eval(key)
	w.Sample("long: %s Q=%d B=%d: %d goroutines x %d records, %d calls waited for up to %v", ds.kind, Q, B, G, per, waited.Load(), time.Duration(longest.Load()))
}
