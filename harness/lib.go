package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// ---- configurations

type outDef = map[string]string

// Cfg builds an api.Config.
type Cfg struct{ c api.Config }

func (b *Cfg) format(name, layout string) *Cfg {
	b.c.Formats = append(b.c.Formats, api.CfgFormat{"type": "text", "name": name, "layout": layout})
	return b
}
func (b *Cfg) out(name, typ, format string, kv ...string) *Cfg {
	o := api.CfgOutput{"name": name, "type": typ, "format": format}
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] != "" {
			o[kv[i]] = kv[i+1]
		}
	}
	b.c.Outputs = append(b.c.Outputs, o)
	return b
}
func (b *Cfg) logger(name, level string, outs ...string) *Cfg {
	b.c.Loggers = append(b.c.Loggers, api.CfgLogger{Name: name, Level: level, OutputNames: outs})
	return b
}

// load sets a configuration that must be accepted.
func (b *Cfg) load(w *W) bool {
	if err := mgr().SetConfig(&b.c); err != nil {
		w.Fail("valid configuration refused", "SetConfig(%+v) = %v", b.c, err)
		return false
	}
	return true
}

func mgr() api.Manager                 { return log4g.GetManager() }
func getLogger(name string) api.Logger { return log4g.GetLogger(name) }

// quietRoot gives root a configuration of its own so that nothing goes to the console.
func (b *Cfg) quietRoot(pfx string) *Cfg {
	b.format(pfx+"rootf", "%{msg}\n")
	b.out(pfx+"rootm", "memory", pfx+"rootf")
	return b.logger("root", "all", pfx+"rootm")
}

// outputOf returns the i-th output configured for a logger.
func outputOf(w *W, logger string, i int) api.Output {
	ops, _, err := mgr().GetLoggerOutputs(logger)
	if err != nil || i >= len(ops) {
		w.Fail("outputs of a logger unavailable", "GetLoggerOutputs(%q) = %d outputs, %v", logger, len(ops), err)
		return nil
	}
	return ops[i]
}

func memText(o api.Output) string {
	if s, ok := o.(fmt.Stringer); ok {
		return s.String()
	}
	return ""
}

var levels = []api.Level{api.All, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off}
var recLevels = []api.Level{api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical}
var levelNames = map[api.Level]string{api.All: "ALL", api.Trace: "TRACE", api.Debug: "DEBUG", api.Info: "INFO", api.Warn: "WARN", api.Error: "ERROR", api.Critical: "CRITICAL", api.Off: "OFF"}
var shortNames = map[api.Level]string{api.Trace: "TAC", api.Debug: "DBG", api.Info: "INF", api.Warn: "WRN", api.Error: "ERR", api.Critical: "CRI"}

// rank is the documented order, independent of the numbers of the constants.
func rank(l api.Level) int {
	for i, x := range levels {
		if x == l {
			return i
		}
	}
	return -1
}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return s
	}
	b := []byte(strings.ToLower(s))
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

// ---- logging methods

type logCall struct {
	name string
	lvl  api.Level
	f    func(w api.Writer, msg string)
}

var logCalls = []logCall{
	{"Trace", api.Trace, func(w api.Writer, m string) { w.Trace(m) }},
	{"Tracef", api.Trace, func(w api.Writer, m string) { w.Tracef("%s", m) }},
	{"Debug", api.Debug, func(w api.Writer, m string) { w.Debug(m) }},
	{"Debugf", api.Debug, func(w api.Writer, m string) { w.Debugf("%s", m) }},
	{"Info", api.Info, func(w api.Writer, m string) { w.Info(m) }},
	{"Infof", api.Info, func(w api.Writer, m string) { w.Infof("%s", m) }},
	{"Warn", api.Warn, func(w api.Writer, m string) { w.Warn(m) }},
	{"Warnf", api.Warn, func(w api.Writer, m string) { w.Warnf("%s", m) }},
	{"Error", api.Error, func(w api.Writer, m string) { w.Error(m) }},
	{"Errorf", api.Error, func(w api.Writer, m string) { w.Errorf("%s", m) }},
	{"Critical", api.Critical, func(w api.Writer, m string) { w.Critical(m) }},
	{"Criticalf", api.Critical, func(w api.Writer, m string) { w.Criticalf("%s", m) }},
	{"Printf(trace)", api.Trace, func(w api.Writer, m string) { w.Printf(api.Trace, "%s", m) }},
	{"Printf(debug)", api.Debug, func(w api.Writer, m string) { w.Printf(api.Debug, "%s", m) }},
	{"Printf(info)", api.Info, func(w api.Writer, m string) { w.Printf(api.Info, "%s", m) }},
	{"Printf(warn)", api.Warn, func(w api.Writer, m string) { w.Printf(api.Warn, "%s", m) }},
	{"Printf(error)", api.Error, func(w api.Writer, m string) { w.Printf(api.Error, "%s", m) }},
	{"Printf(critical)", api.Critical, func(w api.Writer, m string) { w.Printf(api.Critical, "%s", m) }},
}

func callsAt(l api.Level) []logCall {
	var cs []logCall
	for _, c := range logCalls {
		if c.lvl == l {
			cs = append(cs, c)
		}
	}
	return cs
}

// ---- a recording output, registered as type "vrec"

type recEvent struct {
	Name  string
	Level api.Level
	Msg   string // rendered by the event itself
	Text  string // rendered by the formatter
}

// Rec is an instance of the recording output.
type Rec struct {
	def    map[string]string
	mu     sync.Mutex
	f      api.Formatter
	events []recEvent
	early  int // records before a formatter was set
	closed int
	late   int // records after close
}

var (
	recMu   sync.Mutex
	recs    = map[string][]*Rec{} // by output name, in order of creation
	recHook func(def map[string]string)
	recOnce sync.Once
)

func useRec() {
	recOnce.Do(func() {
		mgr().RegisterOutputCreator("vrec", func(cfg api.CfgOutput) (api.Output, error) {
			if recHook != nil {
				recHook(cfg)
			}
			r := &Rec{def: map[string]string{}}
			for k, v := range cfg {
				r.def[k] = v
			}
			recMu.Lock()
			recs[cfg.Name()] = append(recs[cfg.Name()], r)
			recMu.Unlock()
			return r, nil
		})
	})
}

func recsOf(name string) []*Rec {
	recMu.Lock()
	defer recMu.Unlock()
	return append([]*Rec(nil), recs[name]...)
}

// recOf returns the newest instance of a recording output (or nil).
func recOf(name string) *Rec {
	rs := recsOf(name)
	if len(rs) == 0 {
		return nil
	}
	return rs[len(rs)-1]
}

func (r *Rec) Send(e *api.Event) {
	r.mu.Lock()
	defer r.mu.Unlock()
	ev := recEvent{Name: e.Name, Level: e.Level, Msg: e.Message()}
	if r.f == nil {
		r.early++
	} else {
		ev.Text = string(r.f.Format(e))
	}
	if r.closed > 0 {
		r.late++
	}
	r.events = append(r.events, ev)
}
func (r *Rec) SetFormatter(f api.Formatter) { r.mu.Lock(); r.f = f; r.mu.Unlock() }
func (r *Rec) CallerInfoFlag() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.f == nil {
		return 0
	}
	return r.f.CallerInfoFlag()
}
func (r *Rec) Close() { r.mu.Lock(); r.closed++; r.mu.Unlock() }
func (r *Rec) take() []recEvent {
	r.mu.Lock()
	defer r.mu.Unlock()
	ev := r.events
	r.events = nil
	return ev
}
func (r *Rec) texts() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var ts []string
	for _, e := range r.events {
		ts = append(ts, e.Text)
	}
	return ts
}

// ---- console redirection: outputs created while redirected write to the file

func withStdout(f *os.File, fn func()) {
	old := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = old }()
	fn()
}

// realStderr stays referenced, or else file descriptor 2 would be closed.
var realStderr = os.Stderr

// quietStderr discards what the library prints about injected failures.
func quietStderr() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
}

// ---- streams of records

type recKey struct{ g, seq int }

// Rec stamps: call before the logging call, ret after its return.
type stamp struct {
	recKey
	size      int
	call, ret int64
}

var clock atomic.Int64

func tick() int64 { return clock.Add(1) }

const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;_+*/(){}[]<>=!?#%&$'\"|~^@"

// payload is a function of the key and the size.
func payload(k recKey, size int) string {
	b := make([]byte, size)
	x := uint32(k.g*7919+k.seq*104729+size)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = alpha[(x>>16)%uint32(len(alpha))]
	}
	return string(b)
}

// twin is the message of records which are all alike.
const twin = "=TWIN=TWIN="

// takeTwins removes the given line, wherever it is, and tells how often it was there.
func takeTwins(text, line string) (string, int) {
	var sb strings.Builder
	n, at := 0, 0
	for {
		k := strings.Index(text[at:], line)
		if k < 0 {
			sb.WriteString(text[at:])
			return sb.String(), n
		}
		sb.WriteString(text[at : at+k])
		if at+k == 0 || text[at+k-1] == '\n' {
			n++
		} else {
			sb.WriteString(line)
		}
		at += k + len(line)
	}
}

// recText is the message of a record, without line end.
func recText(k recKey, size int) string {
	return fmt.Sprintf("R%d.%d.%d:%s;", k.g, k.seq, size, payload(k, size))
}

// parseRec parses a line made by recText.
func parseRec(line string) (k recKey, size int, ok bool) {
	if !strings.HasPrefix(line, "R") {
		return
	}
	i := strings.IndexByte(line, ':')
	if i < 0 {
		return
	}
	fs := strings.Split(line[1:i], ".")
	if len(fs) != 3 {
		return
	}
	var err [3]error
	k.g, err[0] = strconv.Atoi(fs[0])
	k.seq, err[1] = strconv.Atoi(fs[1])
	size, err[2] = strconv.Atoi(fs[2])
	if err[0] != nil || err[1] != nil || err[2] != nil || size < 0 || size > len(line) {
		return
	}
	return k, size, line == recText(k, size)
}

// Stream collects the records logged by several goroutines.
type Stream struct {
	mu  sync.Mutex
	all map[recKey]*stamp
}

func newStream() *Stream { return &Stream{all: map[recKey]*stamp{}} }

// log logs one record through f and stamps it.
func (s *Stream) log(k recKey, size int, f func(msg string)) *stamp {
	st := &stamp{recKey: k, size: size, ret: 1 << 62}
	s.mu.Lock()
	s.all[k] = st
	s.mu.Unlock()
	msg := recText(k, size)
	st.call = tick()
	f(msg)
	atomic.StoreInt64(&st.ret, tick())
	return st
}

type streamOpts struct {
	mayMiss   func(st *stamp) bool // the record may be absent
	oldestOK  bool                 // the oldest part of the stream may be absent
	prefix    bool                 // per goroutine, what is present must be a prefix
	tornOK    func(line string) bool
	noOrder   bool
	dupsOK    bool
	perGorder bool // only per-goroutine order
}

type streamInfo struct {
	present, missing int
	switches         int // adjacent records of different goroutines
	order            uint64
}

// check compares text (lines "<prefix><record>") with the stream; pre is the
// expected line prefix of a record. It returns "" or the kind of failure and details.
func (s *Stream) check(text string, pre func(st *stamp) string, o streamOpts) (sig, msg string, info streamInfo) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if text != "" && text[len(text)-1] != '\n' {
		i := strings.LastIndexByte(text, '\n')
		if o.tornOK == nil || !o.tornOK(text[i+1:]) {
			return "record not whole", fmt.Sprintf("the stream ends in the middle of a record: %q", clip(text[i+1:], 300)), info
		}
		text = text[:i+1]
	}
	var seq []*stamp
	seen := map[recKey]int{}
	ln := 0
	for len(text) > 0 {
		i := strings.IndexByte(text, '\n')
		line := text[:i]
		text = text[i+1:]
		ln++
		j := 0
		if pre != nil {
			if j = strings.IndexByte(line, '\t') + 1; j == 0 {
				return "record not whole", fmt.Sprintf("line %d is no record: %q", ln, clip(line, 300)), info
			}
		}
		k, size, ok := parseRec(line[j:])
		if !ok {
			if o.tornOK != nil && o.tornOK(line) {
				continue
			}
			return "record not whole", fmt.Sprintf("line %d is no record: %q", ln, clip(line, 300)), info
		}
		st := s.all[k]
		if st == nil || st.size != size {
			return "unknown record", fmt.Sprintf("line %d was never logged: %q", ln, clip(line, 300)), info
		}
		if pre != nil && pre(st)+"\t" != line[:j] {
			return "record altered", fmt.Sprintf("line %d should begin with %q: %q", ln, pre(st), clip(line, 300)), info
		}
		if p, dup := seen[k]; dup {
			if o.dupsOK {
				continue
			}
			return "duplicate record", fmt.Sprintf("record %d.%d is in lines %d and %d", k.g, k.seq, p, ln), info
		}
		seen[k] = ln
		if n := len(seq); n > 0 && seq[n-1].g != k.g {
			info.switches++
		}
		info.order = info.order*1099511628211 ^ uint64(k.g+1)
		seq = append(seq, st)
	}
	info.present = len(seq)
	if !o.noOrder {
		last := map[int]*stamp{}
		var minRet *stamp
		for i := len(seq) - 1; i >= 0; i-- {
			st := seq[i]
			if l := last[st.g]; l != nil && l.seq < st.seq {
				return "records reordered", fmt.Sprintf("goroutine %d: record %d is written before record %d", st.g, st.seq, l.seq), info
			}
			last[st.g] = st
			if o.perGorder {
				continue
			}
			if minRet != nil && minRet.ret < st.call {
				return "records reordered", fmt.Sprintf("the call logging %d.%d returned (t=%d) before the call logging %d.%d began (t=%d), yet it is written later", minRet.g, minRet.seq, minRet.ret, st.g, st.seq, st.call), info
			}
			if minRet == nil || st.ret < minRet.ret {
				minRet = st
			}
		}
	}
	var minP *stamp
	maxSeq := map[int]int{}
	for _, st := range seq {
		if minP == nil || st.ret < minP.ret {
			minP = st
		}
		if st.seq > maxSeq[st.g] || maxSeq[st.g] == 0 {
			maxSeq[st.g] = st.seq
		}
	}
	var keys []recKey
	for k := range s.all {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].g != keys[j].g {
			return keys[i].g < keys[j].g
		}
		return keys[i].seq < keys[j].seq
	})
	nmiss := 0
	var first *stamp
	for _, k := range keys {
		st := s.all[k]
		if _, ok := seen[k]; ok {
			continue
		}
		info.missing++
		if o.mayMiss != nil && o.mayMiss(st) {
			if o.prefix {
				if p, ok := maxSeq[st.g]; ok && p > st.seq {
					return "gap in a goroutine's records", fmt.Sprintf("record %d.%d is missing but %d.%d is there", st.g, st.seq, st.g, p), info
				}
			}
			continue
		}
		if o.oldestOK {
			if minP != nil && st.call > minP.ret {
				return "record lost", fmt.Sprintf("record %d.%d (%d bytes) is missing although the older record %d.%d is there", st.g, st.seq, st.size, minP.g, minP.seq), info
			}
			continue
		}
		nmiss++
		if first == nil {
			first = st
		}
	}
	if nmiss > 0 {
		return "record lost", fmt.Sprintf("%d of %d records are missing, the first is %d.%d (%d bytes, call t=%d, return t=%d)", nmiss, len(keys), first.g, first.seq, first.size, first.call, first.ret), info
	}
	return "", "", info
}

// ---- directories

func readFile(p string) string {
	b, _ := os.ReadFile(p)
	return string(b)
}

// dirFiles returns name -> contents of the regular files in a directory.
func dirFiles(dir string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.Type().IsRegular() {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			m[e.Name()] = string(b)
		}
	}
	return m
}

// rollName returns the part of a name that a backup adds to base, if it has that form.
func rollName(name, base string, prefix bool) (string, bool) {
	if prefix {
		if strings.HasSuffix(name, "."+base) {
			return strings.TrimSuffix(name, "."+base), true
		}
	} else if strings.HasPrefix(name, base+".") {
		return strings.TrimPrefix(name, base+"."), true
	}
	return "", false
}

func backupName(base, roll string, prefix bool) string {
	if prefix {
		return roll + "." + base
	}
	return base + "." + roll
}

// sizeBackups returns the numbers of the backups in a directory, ascending.
func sizeBackups(dir, base string, prefix bool) []int {
	var ns []int
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		if r, ok := rollName(e.Name(), base, prefix); ok {
			if n, err := strconv.Atoi(r); err == nil && strconv.Itoa(n) == r && n > 0 {
				ns = append(ns, n)
			}
		}
	}
	sort.Ints(ns)
	return ns
}

// sizeStream concatenates backups and current file, oldest first.
func sizeStream(dir, base string, prefix bool) (text string, backups []int) {
	var b bytes.Buffer
	backups = sizeBackups(dir, base, prefix)
	for _, n := range backups {
		b.WriteString(readFile(filepath.Join(dir, backupName(base, strconv.Itoa(n), prefix))))
	}
	b.WriteString(readFile(filepath.Join(dir, base)))
	return b.String(), backups
}

// ---- misc

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func gomaxprocs(w *W) {
	if n := w.Job.P["procs"]; n > 0 {
		runtime.GOMAXPROCS(n)
	}
}

// jitter makes interleavings more diverse.
func jitter(r *rand.Rand) {
	switch r.Intn(8) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := r.Intn(2000); i > 0; i-- {
			clock.Load()
		}
	}
}

// par runs n goroutines that start together and waits for them.
func par(n int, f func(g int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			f(g)
		}(g)
	}
	close(start)
	wg.Wait()
}

// jobs makes n jobs with different seeds.
func jobs(kind string, seed int64, n, cases int, p map[string]int) []Job {
	var js []Job
	for i := 0; i < n; i++ {
		q := map[string]int{"i": i}
		for k, v := range p {
			q[k] = v
		}
		h := int64(0)
		for _, c := range kind {
			h = h*131 + int64(c)
		}
		js = append(js, Job{Kind: kind, Seed: seed*1000003 + h*7919 + int64(i), N: cases, P: q})
	}
	return js
}

func ifel(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func hash(s string) string {
	if s == "" {
		return ""
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return strconv.FormatUint(h, 36)
}

// timeBackups returns the names of the backups of a time-rolled log, oldest first.
func timeBackups(dir, base, pattern string, prefix bool) (names []string, ts []time.Time) {
	es, _ := os.ReadDir(dir)
	type bk struct {
		n string
		t time.Time
	}
	var bs []bk
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		if roll, ok := rollName(e.Name(), base, prefix); ok {
			if t, err := time.ParseInLocation(pattern, roll, time.Local); err == nil {
				bs = append(bs, bk{e.Name(), t})
			}
		}
	}
	sort.SliceStable(bs, func(i, j int) bool { return bs[i].t.Before(bs[j].t) })
	for _, b := range bs {
		names = append(names, b.n)
		ts = append(ts, b.t)
	}
	return
}

func timeStream(dir, base, pattern string) string {
	var sb strings.Builder
	ns, _ := timeBackups(dir, base, pattern, false)
	for _, n := range ns {
		sb.WriteString(readFile(filepath.Join(dir, n)))
	}
	sb.WriteString(readFile(filepath.Join(dir, base)))
	return sb.String()
}

// slowText takes a while to be formatted.
type slowText struct {
	s string
	d time.Duration
}

func (s slowText) String() string {
	time.Sleep(s.d)
	return s.s
}
