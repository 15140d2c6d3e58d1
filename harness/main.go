// Command vmon runs the monitors: vmon run ID | vmon worker ... | vmon replay FILE.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Job is one worker process' share of a check. Everything a worker does follows from it.
type Job struct {
	Kind string            `json:"kind"`
	Seed int64             `json:"seed"`
	N    int               `json:"n"`           // cases
	P    map[string]int    `json:"p,omitempty"` // parameters
	S    map[string]string `json:"s,omitempty"` // more parameters
	Env  []string          `json:"env,omitempty"`
}

// Violation is a refutation of the property with its witness.
type Violation struct {
	Sig    string `json:"sig"` // what failed, stable across runs
	Msg    string `json:"msg"` // details
	Job    Job    `json:"job"`
	Stderr string `json:"stderr,omitempty"`
}

// Result of one worker.
type Result struct {
	Sets       map[string]map[string]bool
	Evals      int             `json:"evals"`
	Keys       map[string]bool `json:"keys"` // distinct non-trivial cases
	Counts     map[string]int  `json:"counts"`
	Samples    []string        `json:"samples"`
	Violations []Violation     `json:"violations"`
	Incon      []string        `json:"inconclusive"`
	Done       bool            `json:"done"`
}

// Check describes one property's monitor.
type Check struct {
	ID      string
	Rule    string
	Assume  []string
	Plan    func(seed int64, thorough bool) []Job
	Worker  func(w *W)
	Min     map[string]int // counters that must reach this for the run to mean anything
	Par     int            // concurrent workers (0: 8)
	Timeout time.Duration  // watchdog per worker
	Level   string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// W is the context of a worker.
type W struct {
	Job Job
	Dir string // scratch
	Rng *rand.Rand
	mu  sync.Mutex
	res Result
	out string
}

func (w *W) Eval(key string) {
	progress.Add(1)
	w.mu.Lock()
	w.res.Evals++
	if key != "" && len(w.res.Keys) < 200000 {
		w.res.Keys[key] = true
	}
	w.mu.Unlock()
}

// Key adds an element to a named set; the evidence shows the size of the union.
func (w *W) Key(set, key string) {
	w.mu.Lock()
	if w.res.Sets == nil {
		w.res.Sets = map[string]map[string]bool{}
	}
	if w.res.Sets[set] == nil {
		w.res.Sets[set] = map[string]bool{}
	}
	w.res.Sets[set][key] = true
	w.mu.Unlock()
}
func (w *W) Count(name string, n int) {
	progress.Add(1)
	w.mu.Lock()
	w.res.Counts[name] += n
	w.mu.Unlock()
}
func (w *W) CountMax(name string, n int) {
	w.mu.Lock()
	if n > w.res.Counts["max "+strings.TrimPrefix(name, "max ")] {
		w.res.Counts["max "+strings.TrimPrefix(name, "max ")] = n
	}
	w.mu.Unlock()
}
func (w *W) Sample(f string, a ...any) {
	w.mu.Lock()
	if len(w.res.Samples) < 2 {
		w.res.Samples = append(w.res.Samples, clip(fmt.Sprintf(f, a...), 900))
	}
	w.mu.Unlock()
}

// Fail records a violation; sig names the failing kind, msg the witness.
func (w *W) Fail(sig, f string, a ...any) {
	w.mu.Lock()
	if len(w.res.Violations) < 5 {
		w.res.Violations = append(w.res.Violations, Violation{Sig: sig, Msg: clip(fmt.Sprintf(f, a...), 4000), Job: w.Job})
	}
	w.mu.Unlock()
	w.save(false)
}
func (w *W) Inconclusive(f string, a ...any) {
	w.mu.Lock()
	w.res.Incon = append(w.res.Incon, clip(fmt.Sprintf(f, a...), 1000))
	w.mu.Unlock()
}

// Failed says whether enough was found to stop.
func (w *W) Failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.res.Violations) >= 3
}
func (w *W) save(done bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.res.Done = done
	bs, _ := json.Marshal(&w.res)
	tmp := w.out + ".tmp"
	if err := os.WriteFile(tmp, bs, 0644); err == nil {
		os.Rename(tmp, w.out)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ...<" + strconv.Itoa(len(s)-n) + " bytes>... " + s[len(s)-n/2:]
	}
	return s
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vmon run ID | replay FILE | worker ...")
	}
	switch os.Args[1] {
	case "run":
		os.Exit(run(os.Args[2]))
	case "worker":
		worker(os.Args[2], os.Args[3], os.Args[4])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "child": // processes started (and killed) by workers
		child(os.Args[2:])
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	}
}

func fatal(f string, a ...any) {
	syscall.Write(2, []byte(fmt.Sprintf("vmon: "+f+"\n", a...))) // os.Stderr may be discarded
	os.Exit(3)
}

func worker(id, dir, out string) {
	bs, err := os.ReadFile(filepath.Join(dir, "job.json"))
	if err != nil {
		fatal("%v", err)
	}
	w := &W{Dir: dir, out: out}
	if err := json.Unmarshal(bs, &w.Job); err != nil {
		fatal("%v", err)
	}
	w.Rng = rand.New(rand.NewSource(w.Job.Seed))
	w.res.Keys = map[string]bool{}
	w.res.Counts = map[string]int{}
	stdlog.SetOutput(io.Discard)
	os.Chdir(dir)
	stacksOnSignal(dir)
	done := func() { w.save(true); os.Exit(0) }
	if w.Job.P["bubble"] == 1 {
		inBubble(func() { checks[id].Worker(w) }, done)
		return
	}
	checks[id].Worker(w)
	done()
}

type outcome struct {
	job    Job
	res    *Result
	stderr string
	rc     int
	hung   string // goroutine dump when the watchdog fired
	idle   bool   // no CPU was used before it fired
	spin   string // a call into the library which went on, without any progress, meanwhile
	race   string
}

func cpuOf(pid int) float64 {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(bs)
	i := strings.LastIndex(s, ")")
	fs := strings.Fields(s[i+1:])
	if len(fs) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(fs[11], 64)
	v, _ := strconv.ParseFloat(fs[12], 64)
	return (u + v) / 100
}

func runJob(c *Check, job Job) *outcome {
	o := &outcome{job: job}
	dir, err := os.MkdirTemp("", "vmon-"+c.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer removeScratch(dir)
	bs, _ := json.Marshal(job)
	os.WriteFile(filepath.Join(dir, "job.json"), bs, 0644)
	resf := filepath.Join(dir, "result.json")
	errf, _ := os.Create(filepath.Join(dir, "stderr.txt"))
	outf, _ := os.Create(filepath.Join(dir, "stdout.txt"))
	cmd := exec.Command(os.Args[0], "worker", c.ID, dir, resf)
	cmd.Dir = dir
	cmd.Stderr, cmd.Stdout = errf, outf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	cmd.Env = append(cmd.Env, job.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := c.Timeout
	if limit == 0 {
		limit = 150 * time.Second
	}
	if job.P["soft"] == 1 {
		limit = 40 * time.Second
	}
	select {
	case <-done:
	case <-time.After(limit):
		c0 := cpuOf(cmd.Process.Pid)
		sample := func() { cmd.Process.Signal(syscall.SIGUSR1) }
		sample()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			c1 := cpuOf(cmd.Process.Pid)
			o.idle = c0 >= 0 && c1 >= 0 && c1-c0 < 0.5
			if !o.idle && job.P["soft"] != 1 { // it may be spinning
				for i := 0; i < 3; i++ {
					sample()
					select {
					case <-done:
						i = 3
						done <- nil
					case <-time.After(7 * time.Second):
					}
				}
				o.spin = spinning(dir)
			}
			cmd.Process.Signal(syscall.SIGQUIT)
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
			}
			o.hung = "hung"
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	o.rc = cmd.ProcessState.ExitCode()
	eb, _ := os.ReadFile(filepath.Join(dir, "stderr.txt"))
	o.stderr = string(eb)
	if o.hung != "" {
		o.hung = o.stderr
	}
	if rb, err := os.ReadFile(resf); err == nil {
		var r Result
		if json.Unmarshal(rb, &r) == nil {
			o.res = &r
		}
	}
	races, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range races {
		b, _ := os.ReadFile(f)
		o.race += string(b)
	}
	return o
}

// removeScratch removes a directory made by runJob (and nothing else).
func removeScratch(dir string) {
	if !strings.HasPrefix(filepath.Base(dir), "vmon-") {
		return
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(dir)
}

const libPkg = "github.com/xtfly/log4g"

var crashRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|SIG[A-Z]+: .*|unexpected fault address.*)$`)

// Virtual time stops while a goroutine waits for a mutex (it is not durably blocked): a
// slow-disk job in which the library waits for a mutex while the disk is busy cannot go
// on, and decides nothing.
var mutexWait = regexp.MustCompile(`\[sync\.(RW)?Mutex\.R?Lock`)

const givenUp = "slow jobs given up"

// classify turns what happened to a worker into violations and inconclusive notes.
func classify(c *Check, o *outcome) (vs []Violation, incon []string) {
	if o.res != nil {
		vs = append(vs, o.res.Violations...)
		incon = append(incon, o.res.Incon...)
	}
	if o.hung != "" {
		if o.job.P["soft"] == 1 && mutexWait.MatchString(o.hung) && strings.Contains(o.hung, "main.slowDisk") {
			return nil, []string{givenUp}
		}
		if g := blockedInLib(o.hung); o.idle && g != "" {
			vs = append(vs, Violation{Sig: "blocked forever", Msg: "no progress: a call into the library is blocked and the process is idle\n" + g, Job: o.job, Stderr: clip(o.hung, 6000)})
		} else if g := stoppedInLib(o.hung); o.idle && o.job.P["soft"] != 1 && g != "" {
			vs = append(vs, Violation{Sig: "blocked forever", Msg: "no progress: a goroutine of the library is blocked, the process is idle and the harness waits for it\n" + g, Job: o.job, Stderr: clip(o.hung, 6000)})
		} else if o.spin != "" {
			vs = append(vs, Violation{Sig: "blocked forever", Msg: "no progress: a call into the library goes on and on\n" + o.spin, Job: o.job, Stderr: clip(o.hung, 6000)})
		} else {
			incon = append(incon, "watchdog fired; "+clip(o.hung, 1500))
		}
		return
	}
	if i := strings.Index(o.stderr, stuckNote); i >= 0 && o.rc == 4 {
		g := o.stderr[i:]
		vs = append(vs, Violation{Sig: "blocked forever", Msg: "no progress for 120 days of virtual time: a call into the library is blocked\n" + clip(g, 3000), Job: o.job, Stderr: clip(g, 6000)})
		return
	}
	if o.res == nil || !o.res.Done {
		m := crashRe.FindString(o.stderr)
		i := strings.Index(o.stderr, m)
		st := o.stderr
		if m != "" && i >= 0 {
			st = o.stderr[i:]
		}
		// the stack of the crashing goroutine comes first
		first := st
		if k := strings.Index(st, "\n\ngoroutine "); k > 0 {
			if k2 := strings.Index(st[k+2:], "\n\n"); k2 > 0 {
				first = st[:k+2+k2]
			}
		}
		if m != "" && strings.Contains(first, libPkg) && !(strings.Contains(m, "concurrent map") && !innermostInLib(first)) {
			vs = append(vs, Violation{Sig: "crash", Msg: "the program crashed in the library: " + m, Job: o.job, Stderr: clip(first, 6000)})
		} else {
			incon = append(incon, fmt.Sprintf("worker ended early (rc %d): %s", o.rc, clip(st, 3000)))
		}
	}
	return
}

// stacksOnSignal lets the worker write its stacks and its progress to a file whenever
// it is asked to.
func stacksOnSignal(dir string) {
	ch := make(chan os.Signal, 4)
	signal.Notify(ch, syscall.SIGUSR1)
	go func() {
		for i := 0; ; i++ {
			<-ch
			b := make([]byte, 4<<20)
			b = b[:runtime.Stack(b, true)]
			h := fmt.Sprintf("%d %d\n\n", progress.Load(), clock.Load())
			// not through package os, which may be hooked
			fd, err := syscall.Open(filepath.Join(dir, fmt.Sprintf("stacks.%d", i)), syscall.O_WRONLY|syscall.O_CREAT, 0644)
			if err == nil {
				syscall.Write(fd, append([]byte(h), b...))
				syscall.Close(fd)
			}
		}
	}()
}

// spinning compares the stacks a busy process wrote: without any progress in between, a
// goroutine of the harness which was in the same call into the library all the time.
func spinning(dir string) string {
	var same map[string]string // goroutine -> frames of the harness below the library
	var last, text string
	for i := 0; i < 4; i++ {
		bs, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stacks.%d", i)))
		if err != nil {
			return ""
		}
		gs := strings.Split(string(bs), "\n\n")
		if i > 0 && gs[0] != last {
			return ""
		}
		last = gs[0]
		now := map[string]string{}
		for _, g := range gs[1:] {
			id, _, _ := strings.Cut(g, " [")
			li := strings.Index(g, "\n"+libPkg)
			if li < 0 {
				continue
			}
			if mi := strings.Index(g[li:], "\nmain."); mi >= 0 {
				now[id] = g[li+mi:]
				if i == 0 || same[id] == now[id] {
					text = g
				} else {
					delete(now, id)
				}
			}
		}
		if same = now; len(same) == 0 {
			return ""
		}
	}
	return clip(text, 3000)
}

// innermostInLib tells whether the innermost frame outside the runtime is the library's.
func innermostInLib(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, libPkg):
			return true
		case strings.HasPrefix(l, "main."):
			return false
		}
	}
	return false
}

var gorRe = regexp.MustCompile(`(?m)^goroutine \d+[^\[]*\[([^\]]+)\]:$`)

// blockedInLib returns the stack of a goroutine that is blocked in a call made by
// the harness into the library (or by the library itself closing an output).
func blockedInLib(dump string) string {
	for _, g := range strings.Split(dump, "\n\n") {
		m := gorRe.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		st := m[1]
		blocked := false
		for _, s := range []string{"chan send", "chan receive", "select", "semacquire", "sync.", "sleep"} {
			if strings.HasPrefix(st, s) {
				blocked = true
			}
		}
		li := strings.Index(g, libPkg)
		if blocked && li >= 0 && strings.Contains(g[li:], "\nmain.") {
			return clip(g, 3000)
		}
	}
	return ""
}

// stoppedInLib returns the stack of a goroutine of the library that holds up virtual time
// (it is blocked in a mutex or the like, not durably) while the harness waits for it to
// become quiet.
func stoppedInLib(dump string) string {
	if !strings.Contains(dump, "[synctest.Wait") && !strings.Contains(dump, "[synctest.Run") {
		return ""
	}
	for _, g := range strings.Split(dump, "\n\n") {
		m := gorRe.FindStringSubmatch(g)
		if m == nil || strings.Contains(m[1], "durable") || !strings.Contains(m[1], "synctest bubble") || !strings.Contains(g, "created by "+libPkg) || !innermostInLib(g) {
			continue
		}
		for _, s := range []string{"chan send", "chan receive", "select", "semacquire", "sync."} {
			if strings.HasPrefix(m[1], s) {
				return clip(g, 3000)
			}
		}
	}
	return ""
}

// race reports: deduplicated by the pair of innermost library functions
var raceFn = regexp.MustCompile(`(?m)^  (github\.com/xtfly/log4g[^\s(]*(?:\([^)]*\)[^\s(]*)*)\(`)

func raceViolations(o *outcome) (vs []Violation, foreign int) {
	seen := map[string]bool{}
	for _, blk := range strings.Split(o.race, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		// only the two access stacks count, not where goroutines were created
		acc := blk
		if i := strings.Index(acc, "\nGoroutine "); i > 0 {
			acc = acc[:i]
		}
		var fns []string
		inner := false // at least one of the accesses is the library's own
		for _, part := range strings.SplitN(acc, "\n\n", 3) {
			if m := raceFn.FindStringSubmatch(part); m != nil {
				if innermostInLib(strings.ReplaceAll(part, "\n  ", "\n")) {
					inner = true
				}
				fns = append(fns, strings.TrimPrefix(m[1], libPkg+"/"))
			}
		}
		if len(fns) == 0 || !inner {
			if os.Getenv("VERIF_RACEDUMP") != "" {
				fmt.Fprintln(os.Stderr, blk)
			}
			foreign++
			continue
		}
		sort.Strings(fns)
		sig := "data race: " + strings.Join(fns, " / ")
		if !seen[sig] {
			seen[sig] = true
			vs = append(vs, Violation{Sig: sig, Msg: clip(blk, 4000), Job: o.job})
		}
	}
	return
}

// ---- known findings

type known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

func loadKnown() []known {
	var f struct {
		Findings []known `json:"findings"`
	}
	bs, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		json.Unmarshal(bs, &f)
	}
	return f.Findings
}

func run(id string) int {
	c := checks[id]
	if c == nil {
		fatal("no check %s", id)
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	start := time.Now()
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	os.MkdirAll(filepath.Join(verifDir(), "replays"), 0755)
	jobs := c.Plan(seed, tier == "thorough")
	// for development: a sample of the jobs only, and whatever they observe is enough
	if k, _ := strconv.Atoi(os.Getenv("VERIF_SAMPLE")); k > 1 {
		last, n := "", 0
		var js []Job
		for _, j := range jobs {
			if n++; j.Kind != last {
				last, n = j.Kind, 0
			}
			if n%k == 0 {
				js = append(js, j)
			}
		}
		jobs, c.Min = js, nil
		c.Timeout = 30 * time.Second
	}
	par := c.Par
	if par == 0 {
		par = 8
	}
	if n := runtime.NumCPU(); par > n {
		par = n
	}
	var (
		mu      sync.Mutex
		evals   int
		keys    = map[string]bool{}
		counts  = map[string]int{}
		sets    = map[string]map[string]bool{}
		samples []string
		viols   []Violation
		incon   []string
		wg      sync.WaitGroup
		sem     = make(chan struct{}, par)
		stop    bool
		ran     int
		hung    int
	)
	for _, j := range jobs {
		sem <- struct{}{}
		mu.Lock()
		st := stop
		if hung > 0 && time.Since(start) > 9*time.Minute && tier != "thorough" {
			st = true
			incon = append(incon, "stopped early: jobs hang")
		}
		mu.Unlock()
		if st {
			<-sem
			break
		}
		wg.Add(1)
		go func(j Job) {
			defer wg.Done()
			defer func() { <-sem }()
			o := runJob(c, j)
			vs, in := classify(c, o)
			if len(in) == 1 && in[0] == givenUp {
				in = nil
				mu.Lock()
				counts[givenUp]++
				mu.Unlock()
			}
			mu.Lock()
			if o.hung != "" && len(vs) == 0 && len(in) > 0 && in[0] != givenUp {
				hung++
			}
			again := hung < 8 // hanging jobs take their time
			mu.Unlock()
			if len(vs) == 0 && len(in) > 0 && in[0] != givenUp && again { // once more before giving up on a job
				o = runJob(c, j)
				vs, in = classify(c, o)
			}
			rv, foreign := raceViolations(o)
			vs = append(vs, rv...)
			mu.Lock()
			defer mu.Unlock()
			ran++
			if foreign > 0 {
				counts["races outside the library"] += foreign
			}
			if o.res != nil {
				evals += o.res.Evals
				for k := range o.res.Keys {
					keys[k] = true
				}
				for s, ks := range o.res.Sets {
					if sets[s] == nil {
						sets[s] = map[string]bool{}
					}
					for k := range ks {
						sets[s][k] = true
					}
					counts[s] = len(sets[s])
				}
				for k, n := range o.res.Counts {
					if strings.HasPrefix(k, "max ") {
						if n > counts[k] {
							counts[k] = n
						}
					} else {
						counts[k] += n
					}
				}
				if len(samples) < 6 {
					samples = append(samples, o.res.Samples...)
				}
			}
			viols = append(viols, vs...)
			incon = append(incon, in...)
			if len(viols) > 0 {
				stop = true
			}
		}(j)
	}
	wg.Wait()
	wall := time.Since(start).Seconds()
	kn := loadKnown()
	var fresh []Violation
	knownHit := map[string]bool{}
	for _, v := range viols {
		hit := false
		for _, k := range kn {
			if k.Property == id && k.Sig == v.Sig {
				hit = true
				if !knownHit[k.Sig] {
					knownHit[k.Sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": len(keys), "rule": c.Rule, "samples": samples,
		"observed": counts, "worker_processes": ran,
	}
	if len(samples) == 0 {
		cov["samples"] = []string{"(none)"}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": c.level(), "coverage": cov,
		"assumptions": c.Assume, "wall_s": float64(int(wall*100)) / 100, "violations": len(fresh),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	bs, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(bs, '\n'), 0644)
	if len(fresh) > 0 {
		seen := map[string]bool{}
		n := 0
		for _, v := range fresh {
			if seen[v.Sig] || n >= 4 {
				continue
			}
			seen[v.Sig] = true
			n++
			rp := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%d.json", id, n))
			b, _ := json.MarshalIndent(map[string]any{"check": id, "violation": v}, "", " ")
			os.WriteFile(rp, b, 0644)
			fmt.Printf("%s: %s: %s\n", id, v.Sig, clip(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		}
		return 1
	}
	for k, n := range c.Min {
		got := counts[k]
		if k == "evaluations" {
			got = evals
		} else if k == "distinct" {
			got = len(keys)
		}
		if got < n && !(counts[givenUp] > 0 && strings.HasPrefix(k, "slow ")) {
			incon = append(incon, fmt.Sprintf("observed too little: %s = %d < %d", k, got, n))
		}
	}
	if len(incon) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s\n", id)
		for _, s := range incon {
			fmt.Println("  " + s)
		}
		return 3
	}
	fmt.Printf("%s held on %d evaluations (%d distinct non-trivial) in %.1fs %v\n", id, evals, len(keys), wall, counts)
	return 0
}

func (c *Check) level() string {
	if c.Level != "" {
		return c.Level
	}
	return "exploration"
}

func replay(file string) int {
	bs, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Check     string
		Violation Violation
	}
	if err := json.Unmarshal(bs, &r); err != nil {
		fatal("%v", err)
	}
	c := checks[r.Check]
	for i := 0; i < 10; i++ {
		o := runJob(c, r.Violation.Job)
		vs, in := classify(c, o)
		rv, _ := raceViolations(o)
		vs = append(vs, rv...)
		for _, v := range vs {
			fmt.Printf("%s: %s\n%s\n", v.Sig, v.Msg, v.Stderr)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Check, file)
			return 1
		}
		for _, s := range in {
			fmt.Println("inconclusive:", s)
		}
	}
	fmt.Println("not reproduced in 10 runs")
	return 0
}

var _ = bytes.NewReader
