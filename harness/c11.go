//go:build oshook

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register(&Check{
		ID:   "C11",
		Rule: "a case is a directory used by several lives of a process with a synchronous rolling output (by size, or by time under a virtual clock; archive none, zip or gzip). Kind 'op': the first life is killed before its n-th file operation (or in the middle of a write), for every n of a dry run; the second is killed at a random one half of the time; the last runs to its end with enough records to rotate more than the limit. Kind 'kill': lives with several writing goroutines are killed by the harness at random moments. Afterwards the files must be made of the acknowledged records in order (those in flight at a kill may be there, whole or cut). Non-trivial when a life was really killed; distinct by scenario and kill points.",
		Assume: []string{
			"a crash is the death of the process: what was handed to the operating system survives",
			"for time-rolled logs the harness gives the current file the virtual time of its last write before a restart",
		},
		Plan: func(seed int64, th bool) []Job {
			n, m, c := 36, 8, 10
			if th {
				n, m, c = 160, 64, 40
			}
			var js []Job
			for i, j := range jobs("op", seed, n, 1, nil) {
				j.S = map[string]string{"archive": []string{"", "gzip", "zip"}[i%3]}
				j.P["timed"] = i / 3 % 2
				j.P["prefix"] = i / 6 % 2
				js = append(js, j)
			}
			return append(js, jobs("kill", seed, m, c, nil)...)
		},
		Worker: c11,
		Min:    map[string]int{"evaluations": 500, "kills before an operation": 500, "kills within a write": 30, "kills at a random moment": 50, "kill points: write": 30, "kill points: rename": 30, "kill points: remove": 20, "kill points: open": 50, "acknowledged records": 10000, "distinct": 500},
	})
	children["crash"] = crashChild
}

type crashSpec struct {
	Dir, Base, Pattern, Archive, Ack string
	Limit, N, G, Life, Count         int
	Prefix                           bool
	Seed                             int64
	KillAt                           int  // operation
	Torn                             bool // die within that write
	At                               time.Duration
	Gap                              time.Duration
}

// sizes of the records of a life
func (s *crashSpec) sizes(g int) []int {
	r := rand.New(rand.NewSource(s.Seed + int64(g)*77))
	var ss []int
	for i := 0; i < s.Count; i++ {
		ss = append(ss, pick(r, 0, 3, 10, 40, 90, r.Intn(200)))
	}
	return ss
}

func crashChild(args []string) {
	var s crashSpec
	if err := json.Unmarshal([]byte(args[0]), &s); err != nil {
		fatal("%v", err)
	}
	ack, err := syscall.Open(s.Ack, syscall.O_WRONLY|syscall.O_APPEND|syscall.O_CREAT, 0644)
	if err != nil {
		fatal("ack: %v", err)
	}
	say := func(f string, a ...any) {
		m := []byte(fmt.Sprintf(f, a...) + "\n")
		if n, err := syscall.Write(ack, m); n != len(m) || err != nil {
			fatal("ack: %v", err)
		}
	}
	body := func() {
		if s.Pattern != "" {
			time.Sleep(s.At)
		}
		useHook(s.Dir)
		b := (&Cfg{}).quietRoot("cr")
		b.format("f", "%{msg}\n")
		kv := []string{"file", filepath.Join(s.Dir, s.Base), "backups", fmt.Sprint(s.N), "archive", s.Archive, "name_mode", ifel(s.Prefix, "prefix", "")}
		if s.Pattern != "" {
			b.out("o", "time_rolling_file", "f", append(kv, "pattern", s.Pattern)...)
		} else {
			b.out("o", "size_rolling_file", "f", append(kv, "size", fmt.Sprint(s.Limit))...)
		}
		b.logger("crash", "all", "o")
		if err := mgr().SetConfig(&b.c); err != nil {
			say("E %v", err)
			return
		}
		lg := getLogger("crash")
		die := func() {
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
		var ops atomic.Int64
		setHook(func(op, p, p2 string) error {
			n := int(ops.Add(1))
			if s.KillAt > 0 && n > s.KillAt { // the torn write was done
				die()
			}
			if n == s.KillAt {
				if s.Torn && op == "write" {
					setShortWrite(true)
					say("W %d", time.Now().UnixNano())
					return errInjected // writes half; the next operation or call dies
				}
				say("K %s", op)
				die()
			}
			if op == "write" && p == filepath.Join(s.Dir, s.Base) {
				say("W %d", time.Now().UnixNano())
			}
			return nil
		})
		run := func(g int) {
			r := rand.New(rand.NewSource(s.Seed*31 + int64(g)))
			for i, size := range s.sizes(g) {
				if s.Pattern != "" {
					time.Sleep(time.Duration(r.Int63n(int64(s.Gap) + 1)))
				}
				k := recKey{g, s.Life*100000 + i}
				m := recText(k, size)
				say("B %d %d %d %d", k.g, k.seq, size, time.Now().UnixNano())
				lg.Info(m)
				if s.KillAt > 0 && int(ops.Load()) >= s.KillAt {
					say("K torn")
					die()
				}
				say("A %d %d", k.g, k.seq)
			}
		}
		if s.G == 1 {
			run(0)
		} else {
			par(s.G, run)
		}
		setHook(nil)
		say("O %d", ops.Load())
		say("D")
	}
	if s.Pattern != "" {
		inBubble(body, func() { os.Exit(0) })
	} else {
		body()
	}
	os.Exit(0)
}

// crashLife runs one life; wait is the time after which it is killed (0: never).
func crashLife(w *W, s *crashSpec, wait time.Duration) (killed bool) {
	bs, _ := json.Marshal(s)
	cmd := exec.Command(os.Args[0], "child", "crash", string(bs))
	var eb strings.Builder
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if s.G > 1 {
		cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
	}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	var mu sync.Mutex
	over := false
	limit := 60 * time.Second
	if wait > 0 {
		limit = wait
	}
	t := time.AfterFunc(limit, func() {
		mu.Lock()
		defer mu.Unlock()
		if !over {
			if wait == 0 {
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(200 * time.Millisecond)
			}
			cmd.Process.Kill()
		}
	})
	cmd.Wait()
	mu.Lock()
	over = true
	mu.Unlock()
	t.Stop()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	killed = ws.Signaled() && ws.Signal() == syscall.SIGKILL
	if !killed && ws.ExitStatus() != 0 {
		if strings.Contains(eb.String(), libPkg) && (strings.Contains(eb.String(), "panic:") || strings.Contains(eb.String(), "fatal error:")) {
			w.Fail("crash", "a life after a crash panics: %s; %s", bs, clip(eb.String(), 3000))
		} else {
			w.Inconclusive("life %s ended with %d: %s", bs, ws.ExitStatus(), clip(eb.String(), 2000))
		}
	}
	if killed && wait == 0 && s.KillAt == 0 {
		w.Inconclusive("a life did not end: %s; %s", bs, clip(eb.String(), 3000))
	}
	return killed
}

// ackLog is what the lives said.
type ackLog struct {
	st     *Stream
	cut    []string // texts of records in flight at a kill
	acked  int
	ops    int
	last   time.Time // last write to the current file
	end    time.Time // latest known moment of the lives
	kills  []string
	refuse string
}

func readAck(path string) *ackLog {
	a := &ackLog{st: newStream()}
	for i, l := range strings.Split(readFile(path), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		num := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
		switch f[0] {
		case "B":
			k := recKey{num(1), num(2)}
			a.st.all[k] = &stamp{recKey: k, size: num(3), call: int64(i), ret: 1 << 62}
			n, _ := strconv.ParseInt(f[4], 10, 64)
			a.end = time.Unix(0, n)
		case "A":
			a.st.all[recKey{num(1), num(2)}].ret = int64(i)
			a.acked++
		case "W":
			n, _ := strconv.ParseInt(f[1], 10, 64)
			a.last = time.Unix(0, n)
		case "O":
			a.ops = num(1)
		case "K":
			a.kills = append(a.kills, f[1])
		case "E":
			a.refuse = l
		}
	}
	for k, st := range a.st.all {
		if st.ret == 1<<62 {
			a.cut = append(a.cut, recText(k, st.size))
		}
	}
	// a record that was never acknowledged was in flight when its life ended, so it
	// precedes all later lives
	first := map[int]int64{}
	for k, st := range a.st.all {
		l := k.seq / 100000
		if c, ok := first[l]; !ok || st.call < c {
			first[l] = st.call
		}
	}
	return a
}

// untear removes cut records at the places where lives ended.
func (a *ackLog) untear(text string) (string, int) {
	n := 0
	lines := strings.SplitAfter(text, "\n")
	for i, l := range lines {
		if _, _, ok := parseRec(strings.TrimSuffix(l, "\n")); ok {
			continue
		}
		for _, t := range a.cut {
			t += "\n"
			for k := len(t) - 1; k > 0; k-- {
				if strings.HasPrefix(l, t[:k]) {
					rest := l[k:]
					if _, _, ok := parseRec(strings.TrimSuffix(rest, "\n")); ok && strings.HasSuffix(rest, "\n") || rest == "" {
						lines[i] = rest
						n++
						k = 0
					}
				}
			}
		}
	}
	return strings.Join(lines, ""), n
}

// crashCheck compares the files with what the lives said.
func crashCheck(w *W, s *crashSpec, a *ackLog, final bool) (sig, msg string) {
	if a.refuse != "" {
		return "valid configuration refused", a.refuse
	}
	rs, cur, err := rolledFiles(s.Dir, s.Base, s.Pattern, s.Prefix)
	if err != nil {
		return "damaged archive", err.Error()
	}
	text, err := wholeLog(rs, cur)
	if err != nil {
		return "archive differs from its backup", err.Error()
	}
	text, cuts := a.untear(text)
	w.Count("cut records found", cuts)
	nb := 0
	for _, x := range rs {
		if x.backup {
			nb++
		}
	}
	o := streamOpts{mayMiss: func(st *stamp) bool { return st.ret == 1<<62 }}
	if s.Archive == "" && nb >= s.N {
		o.oldestOK = true
	}
	sig, msg, _ = a.st.check(text, nil, o)
	if sig == "" && final && nb > s.N {
		sig, msg = "rotation no longer works", fmt.Sprintf("%d backups remain of at most %d", nb, s.N)
	}
	if sig == "" && final && nb < s.N {
		sig, msg = "rotation no longer works", fmt.Sprintf("only %d backups, at least %d rotations were due in the last life", nb, s.N)
	}
	if sig != "" {
		msg += "; files: " + rollsString(rs, cur)
	}
	return
}

func c11(w *W) {
	r := w.Rng
	if w.Job.Kind == "kill" {
		c11kill(w)
		return
	}
	timed := w.Job.P["timed"] == 1
	mk := func(dir string) *crashSpec {
		s := &crashSpec{Dir: filepath.Join(w.Dir, dir), Base: "rf.log", Archive: w.Job.S["archive"], Ack: filepath.Join(w.Dir, dir+".ack"), Limit: 50, N: 1, G: 1, Life: 1, Count: 9, Prefix: w.Job.P["prefix"] == 1, Seed: w.Job.Seed}
		if timed {
			s.Pattern = "20060102-150405"
			s.Gap = 2 * time.Second
			s.At = time.Hour
		}
		return s
	}
	N := 1 + r.Intn(3)
	limit := pick(r, 10, 50, 150)
	count := 8 + r.Intn(5)
	set := func(s *crashSpec) { s.N, s.Limit, s.Count = N, limit, count }
	dry := mk("dry")
	set(dry)
	crashLife(w, dry, 0)
	a := readAck(dry.Ack)
	if sig, msg := crashCheck(w, dry, a, false); sig != "" {
		w.Fail(sig, "without any kill: %+v: %s", dry, msg)
		return
	}
	if a.ops == 0 {
		w.Inconclusive("no operations seen in %+v", dry)
		return
	}
	type plan struct {
		at   int
		torn bool
	}
	var plans []plan
	for n := 1; n <= a.ops; n++ {
		plans = append(plans, plan{n, false})
	}
	for n := 1; n <= a.ops; n += 4 { // only where the operation is a write
		plans = append(plans, plan{n, true})
	}
	os.RemoveAll(dry.Dir)
	sem := make(chan bool, 3)
	var wg sync.WaitGroup
	for i, p := range plans {
		if w.Failed() {
			break
		}
		sem <- true
		wg.Add(1)
		seed := r.Int63()
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rand.New(rand.NewSource(seed))
			s := mk(fmt.Sprintf("k%d", i))
			set(s)
			var plan []string
			step := func(killAt int, torn, last bool) bool {
				s.KillAt, s.Torn = killAt, torn
				if last { // enough to rotate more than N times
					s.Count = 3*N + 8 + limit*(N+2)/12
					if timed {
						s.Count = 3*N + 10
						s.Gap = 4 * time.Second
					}
				}
				k := crashLife(w, s, 0)
				a := readAck(s.Ack)
				plan = append(plan, fmt.Sprintf("life %d kill@%d torn=%v: killed=%v", s.Life, killAt, torn, k))
				if k {
					w.Count("kills before an operation", 1)
					if len(a.kills) > 0 {
						w.Count("kill points: "+a.kills[len(a.kills)-1], 1)
						if a.kills[len(a.kills)-1] == "torn" {
							w.Count("kills within a write", 1)
						}
					}
				}
				if timed {
					if !a.last.IsZero() {
						os.Chtimes(filepath.Join(s.Dir, s.Base), a.last, a.last)
					}
					if !a.end.IsZero() { // the clock does not go back
						s.At = a.end.Sub(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)) + time.Duration(r.Int63n(int64(3*time.Second)))
					}
				}
				if sig, msg := crashCheck(w, s, a, last); sig != "" {
					w.Fail(sig, "%+v: after %v: %s", *s, plan, msg)
					return false
				}
				s.Life++
				s.Seed += 1000
				if last {
					w.Count("acknowledged records", a.acked)
				}
				return true
			}
			if !step(p.at, p.torn, false) {
				return
			}
			if r.Intn(2) == 0 {
				if !step(1+r.Intn(a.ops), r.Intn(4) == 0, false) {
					return
				}
			}
			if !step(0, false, true) {
				return
			}
			w.Eval(hash(fmt.Sprint(w.Job.Seed, plan, timed, s.Archive, s.Prefix)))
			w.Sample("by time=%v archive=%q size=%d backups=%d prefix=%v: %s", timed, s.Archive, limit, N, s.Prefix, strings.Join(plan, "; "))
			os.RemoveAll(s.Dir)
			os.Remove(s.Ack)
		}()
	}
	wg.Wait()
}

func c11kill(w *W) {
	r := w.Rng
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		s := &crashSpec{Dir: filepath.Join(w.Dir, fmt.Sprintf("r%d", ci)), Base: "rf.log", Archive: pick(r, "", "gzip", "zip"), Ack: filepath.Join(w.Dir, fmt.Sprintf("r%d.ack", ci)),
			Limit: pick(r, 100, 1000, 20000), N: 1 + r.Intn(4), G: pick(r, 2, 4, 8), Count: 100000, Prefix: r.Intn(2) == 0, Seed: r.Int63n(1 << 40)}
		var plan []string
		ok := true
		lives := 1 + r.Intn(3)
		for l := 1; l <= lives+1 && ok; l++ {
			s.Life = l
			s.Seed++
			if l <= lives {
				d := time.Duration(5+r.Intn(80)) * time.Millisecond
				s.Count = 20000
				k := crashLife(w, s, d)
				plan = append(plan, fmt.Sprintf("killed=%v after %v", k, d))
				if k {
					w.Count("kills at a random moment", 1)
				}
			} else {
				s.Count = 40 + s.Limit*(s.N+2)/(40*s.G)
				crashLife(w, s, 0)
			}
			a := readAck(s.Ack)
			if sig, msg := crashCheck(w, s, a, l > lives); sig != "" {
				w.Fail(sig, "%+v: after %v: %s", *s, plan, msg)
				ok = false
			}
			if l > lives {
				w.Count("acknowledged records", a.acked)
			}
		}
		w.Eval(hash(fmt.Sprint(*s, plan)))
		os.RemoveAll(s.Dir)
		os.Remove(s.Ack)
	}
}
