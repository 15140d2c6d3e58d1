package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/xtfly/log4g/api"
)

// Sink is a configured output whose content can be read back.
type Sink struct {
	kind  string
	name  string // output name
	path  string
	async bool
	file  *os.File // console
	out   api.Output
	got   []string // syslog
}

var sinkKinds = []string{"memory", "console", "console-async", "size", "size-async", "time", "time-async", "syslog", "vrec"}

func (s *Sink) lossy() bool { return s.async }

// addSink adds an output of the given kind; pre is unique in the process.
func addSink(w *W, b *Cfg, kind, name, format string, kv ...string) *Sink {
	s := &Sink{kind: kind, name: name}
	base := kind
	if i := strings.IndexByte(kind, '-'); i > 0 {
		base = kind[:i]
		s.async = true
		kv = append(kv, "async", "true")
	}
	switch base {
	case "memory", "vrec":
		useRec()
		b.out(name, base, format, kv...)
	case "console":
		s.path = filepath.Join(w.Dir, name+".console")
		b.out(name, "console", format, kv...)
	case "size":
		s.path = filepath.Join(w.Dir, name, "rf.log")
		b.out(name, "size_rolling_file", format, append([]string{"file", s.path, "size", "512M"}, kv...)...)
	case "time":
		s.path = filepath.Join(w.Dir, name, "rf.log")
		b.out(name, "time_rolling_file", format, append([]string{"file", s.path, "pattern", "2006"}, kv...)...)
	case "syslog":
		b.out(name, "syslog", format, append([]string{"prefix", "p" + name}, kv...)...)
	default:
		fatal("sink kind %s", kind)
	}
	return s
}

// loadSinks loads the configuration. Outputs are created when the first logger
// naming them is configured; each console sink is made with its own stdout.
func loadSinks(w *W, b *Cfg, sinks []*Sink) bool {
	var cons *Sink
	for _, s := range sinks {
		if strings.HasPrefix(s.kind, "console") {
			if cons != nil {
				fatal("one console sink per configuration")
			}
			cons = s
			f, err := os.OpenFile(s.path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
			if err != nil {
				fatal("%v", err)
			}
			s.file = f
		}
	}
	ok := false
	load := func() {
		ok = b.load(w)
		if !ok {
			return
		}
		// create all outputs now
		for _, l := range b.c.Loggers {
			ops, _, err := mgr().GetLoggerOutputs(l.Name)
			if err != nil || len(ops) != len(l.OutputNames) {
				w.Fail("outputs of a logger unavailable", "GetLoggerOutputs(%q) = %d outputs, %v", l.Name, len(ops), err)
				ok = false
				return
			}
			for i, n := range l.OutputNames {
				for _, s := range sinks {
					if s.name == n {
						s.out = ops[i]
					}
				}
			}
		}
	}
	if cons != nil {
		withStdout(cons.file, load)
	} else {
		load()
	}
	return ok
}

// content of the sink, after everything was flushed.
func (s *Sink) content(d *syslogd) string {
	switch s.kind {
	case "memory":
		if s.out == nil {
			return ""
		}
		return memText(s.out)
	case "vrec":
		if r := recOf(s.name); r != nil {
			return strings.Join(r.texts(), "")
		}
		return ""
	case "syslog":
		var b strings.Builder
		for _, m := range s.got {
			b.WriteString(m)
		}
		return b.String()
	}
	if strings.HasPrefix(s.kind, "time") {
		return timeStream(filepath.Dir(s.path), filepath.Base(s.path), "2006")
	}
	return readFile(s.path)
}

// drainSyslog distributes what the daemon received among the syslog sinks by tag.
func drainSyslog(d *syslogd, sinks []*Sink) (bad []string) {
	for _, raw := range d.sync() {
		m, ok := parseSyslog(raw)
		found := false
		if ok {
			for _, s := range sinks {
				if s.kind == "syslog" && m.tag == "p"+s.name {
					s.got = append(s.got, m.text)
					found = true
				}
			}
		}
		if !found {
			bad = append(bad, raw)
		}
	}
	return
}

func (s *Sink) close() {
	if s.file != nil {
		s.file.Close()
	}
}

func (s *Sink) String() string { return fmt.Sprintf("%s(%s)", s.name, s.kind) }
