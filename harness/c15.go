package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/xtfly/log4g/api"
)

func init() {
	register(&Check{
		ID:   "C15",
		Rule: "a case is a sequence of loads: valid configurations, each given as structure, YAML (several styles), JSON or file, and between them bad ones (two definitions of one name, references to undefined formats or outputs, each at every position; texts cut, damaged or random; unsupported, missing and odd file types; files missing, directories, damaged; settings and types no creator understands) made from configurations that differ from the one in effect. Each refusal must be an error without panic, after which all deliveries of loggers held, looked up and new still match the model of the configuration accepted last, records waiting in asynchronous outputs still arrive, and no recording output was created or closed. Deliveries after each valid load match the same model whatever the channel. Distinct by load; non-trivial when a bad load was judged.",
		Assume: []string{
			"a damaged text counts as bad when yaml.v2 or encoding/json refuses it or its content breaks the documented rules; otherwise either outcome is accepted",
			"types without a registered creator and settings no creator accepts: only absence of panics is required",
			"virtual time; files are read as root, so permission errors cannot be produced",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 64, 40
			if th {
				n, c = 400, 200
			}
			return append(jobs("bad", seed, n, c, map[string]int{"bubble": 1}),
				jobs("fuzz", seed, n/2, c*120, map[string]int{"bubble": 1})...)
		},
		Worker: c15,
		Min:    map[string]int{"evaluations": 20000, "bad loads": 20000, "valid loads": 1500, "probes after a refusal": 2000, "configurations without root": 300, "distinct": 20000, "valid as yaml": 300, "valid as json": 300, "valid as file": 300, "valid as structure": 300, "damaged texts refused": 2000, "two definitions": 2000, "undefined references": 2000, "unsupported types": 500, "unreadable files": 500, "structures changed after loading": 500},
	})
}

// guarded runs f and reports a panic.
func guarded(w *W, what string, f func() error) (err error, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			w.Fail("panic while loading", "%s: panic: %v\n%s", what, p, debug.Stack())
			ok = false
		}
	}()
	return f(), true
}

type channel struct {
	name string
	text string
	ext  string
	load func() error
}

// channelFor returns a way to load a configuration.
func (x *cfgWorld) channelFor(c *api.Config) channel {
	r := x.r
	k := r.Intn(4)
	if k == 0 {
		c = cloneCfg(c)
		scribble := r.Intn(3) > 0
		return channel{name: "structure", load: func() error {
			err := mgr().SetConfig(c)
			if scribble {
				scribbleCfg(c)
				x.w.Count("structures changed after loading", 1)
			}
			return err
		}}
	}
	var ch channel
	if r.Intn(2) == 0 {
		ch.text, ch.ext = jsonText(r, c), randCase(r, "json")
		if r.Intn(5) == 0 {
			ch.ext = "yaml" // JSON is YAML
		}
	} else {
		ch.text, ch.ext = yamlText(r, c), randCase(r, pick(r, "yaml", "yml"))
	}
	if r.Intn(50) == 0 {
		ch.text = padText(r, ch.text)
		x.w.Count("texts of more than 64 KiB", 1)
	}
	return x.textChannel(ch.text, ch.ext, k == 1)
}

// scribbleCfg changes a configuration that belongs to the caller (as the caller would to
// prepare the next one).
func scribbleCfg(c *api.Config) {
	for _, m := range c.Formats {
		for k := range m {
			m[k] += "#"
		}
	}
	for _, m := range c.Outputs {
		for k := range m {
			m[k] += "#"
		}
	}
	for i := range c.Loggers {
		l := &c.Loggers[i]
		for j := range l.OutputNames {
			l.OutputNames[j] += "#"
		}
		l.Name, l.Level, l.OutputNames = l.Name+"#", "off", l.OutputNames[:0]
	}
	c.Formats, c.Outputs, c.Loggers = c.Formats[:0], c.Outputs[:0], c.Loggers[:0]
}

// padText makes a text long.
func padText(r *rand.Rand, s string) string {
	n := 64<<10 + r.Intn(300<<10)
	if strings.HasPrefix(strings.TrimSpace(s), "{") {
		return strings.Repeat(pick(r, " ", "\n"), n) + s
	}
	return strings.Repeat("# "+strings.Repeat("x", 100)+"\n", n/100) + s
}

func (x *cfgWorld) textChannel(text, ext string, file bool) channel {
	ch := channel{text: text, ext: ext}
	if !file {
		ch.name = "yaml"
		if strings.EqualFold(ext, "json") {
			ch.name = "json"
		}
		ch.load = func() error {
			bs := []byte(text)
			err := mgr().LoadConfig(bs, ext)
			for i := range bs { // the bytes belong to the caller
				bs[i] = '#'
			}
			return err
		}
		return ch
	}
	ch.name = "file"
	x.seq++
	p := filepath.Join(x.w.Dir, fmt.Sprintf("cfg%d%s", x.seq, pick(x.r, "", ".d", ".json", ".yaml")))
	if ext != "" {
		p += "." + ext
	}
	ch.load = func() error {
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			fatal("%v", err)
		}
		defer os.Remove(p)
		return mgr().LoadConfigFile(p)
	}
	return ch
}

// bad makes a configuration load that must be refused (must), or may be.
func (x *cfgWorld) bad() (ch channel, why string, must bool) {
	r := x.r
	c := x.gen()
	switch r.Intn(10) {
	case 0, 1: // two definitions of one name
		why = "two definitions"
		switch r.Intn(3) {
		case 0:
			f := copyMap(c.Formats[r.Intn(len(c.Formats))])
			if r.Intn(2) == 0 {
				f["layout"] = "other %{msg}\n"
			}
			c.Formats = insertAt(c.Formats, r.Intn(len(c.Formats)+1), api.CfgFormat(f))
		case 1:
			o := copyMap(c.Outputs[r.Intn(len(c.Outputs))])
			if r.Intn(2) == 0 {
				o["type"] = pick(r, "memory", "vrec", "console")
			}
			c.Outputs = insertAt(c.Outputs, r.Intn(len(c.Outputs)+1), api.CfgOutput(o))
		case 2:
			l := c.Loggers[r.Intn(len(c.Loggers))]
			if r.Intn(2) == 0 {
				l.Level = "off"
				l.OutputNames = nil
			}
			c.Loggers = insertAt(c.Loggers, r.Intn(len(c.Loggers)+1), l)
		}
	case 2, 3, 4: // undefined references
		why = "undefined references"
		switch r.Intn(5) {
		case 0: // format of an output
			o := c.Outputs[r.Intn(len(c.Outputs))]
			was := o["format"]
			for defined := true; defined; {
				o["format"] = pick(r, "nosuch", "", o.Name(), "root", strings.ToUpper(was), was+" ", was+"\t", was+".")
				defined = false
				for _, f := range c.Formats {
					defined = defined || f["name"] == o["format"]
				}
			}
			if r.Intn(4) == 0 {
				delete(o, "format")
			}
		case 1: // an extra output which nothing uses
			o := api.CfgOutput{"name": "extra", "type": pick(r, "memory", "vrec"), "format": pick(r, "nosuch", "", "extra")}
			c.Outputs = insertAt(c.Outputs, r.Intn(len(c.Outputs)+1), o)
		case 2: // output of a logger
			l := &c.Loggers[r.Intn(len(c.Loggers))]
			n := ""
			for defined := true; defined; {
				was := c.Outputs[0]["name"]
				n = pick(r, "nosuch", "", l.Name, c.Formats[0]["name"], strings.ToUpper(was), was+" ", was+"_")
				defined = false
				for _, o := range c.Outputs {
					defined = defined || o["name"] == n
				}
			}
			l.OutputNames = insertAt(append([]string(nil), l.OutputNames...), r.Intn(len(l.OutputNames)+1), n)
		case 3: // a format goes
			var n string
			for {
				n = c.Outputs[r.Intn(len(c.Outputs))].FormatName()
				break
			}
			var fs []api.CfgFormat
			for _, f := range c.Formats {
				if f.Name() != n {
					fs = append(fs, f)
				}
			}
			c.Formats = fs
		case 4: // an output goes
			var n string
			for n == "" {
				if l := c.Loggers[r.Intn(len(c.Loggers))]; len(l.OutputNames) > 0 {
					n = l.OutputNames[r.Intn(len(l.OutputNames))]
				}
			}
			var os []api.CfgOutput
			for _, o := range c.Outputs {
				if o.Name() != n {
					os = append(os, o)
				}
			}
			c.Outputs = os
		}
	case 5: // unsupported type
		why = "unsupported types"
		ext := pick(r, "", "xml", "toml", "json5", "yamlx", "ini", "jsn", "conf", "txt", "j", "ym", "go")
		text := pick(r, jsonText(r, c), yamlText(r, c), "")
		return x.textChannel(text, ext, r.Intn(2) == 0 && ext != ""), why, true
	case 6: // unreadable
		why = "unreadable files"
		d := filepath.Join(x.w.Dir, "dir.yaml")
		os.Mkdir(d, 0755)
		p := pick(r, "", "/", ".", "..", d, filepath.Join(x.w.Dir, "missing.json"), filepath.Join(x.w.Dir, "missing"), "nosuch/x.yaml", "a\x00b.yaml", strings.Repeat("x", 5000)+".yaml", ".yaml", filepath.Join(d, "x.yaml"))
		return channel{name: "file", text: p, load: func() error { return mgr().LoadConfigFile(p) }}, why, true
	case 7, 8: // damaged text
		why = "damaged texts"
		text, ext := jsonText(r, c), "json"
		if r.Intn(2) == 0 {
			text, ext = yamlText(r, c), "yaml"
		}
		text = x.damage(text)
		if r.Intn(6) == 0 {
			ext = map[string]string{"json": "yaml", "yaml": "json"}[ext]
		}
		ch := x.textChannel(text, ext, r.Intn(3) == 0)
		p, err := refParse(text, ext)
		return ch, why, err != nil || refValid(p) != ""
	case 9: // odd settings
		why = "odd settings"
		for k := 1 + r.Intn(3); k > 0; k-- {
			switch r.Intn(6) {
			case 0:
				c.Outputs[r.Intn(len(c.Outputs))]["type"] = pick(r, "", "nosuch", "Memory", "text")
			case 1:
				c.Formats[r.Intn(len(c.Formats))]["type"] = pick(r, "", "nosuch", "memory")
			case 2:
				o := c.Outputs[r.Intn(len(c.Outputs))]
				o[pick(r, "size", "threshold", "backups", "file_perm", "dir_perm", "back_perm", "async", "batch_num", "queue_size", "archive", "name_mode")] =
					pick(r, "", "x", "-1", "99999999999999999999", "0x", "K", "-5K", "1e9", "true", "\x00", "9999999999G")
			case 5: // sizes of asynchronous outputs
				o := c.Outputs[r.Intn(len(c.Outputs))]
				if o.Type() == "size_rolling_file" || o.Type() == "time_rolling_file" {
					o["async"] = "true"
					o[pick(r, "batch_num", "queue_size")] = pick(r, "0", "-1", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "1000000000000000", "1000000")
				}
			case 3:
				c.Loggers[r.Intn(len(c.Loggers))].Level = pick(r, "loud", "-", "0", "all ", "\x00")
			case 4:
				c.Formats[r.Intn(len(c.Formats))]["layout"] = pick(r, "", "%", "%{", "%{}", "%{nosuch}", "%{msg", "%{msg:}", "%{time:}", "%{msg:-}", "%%{msg}", "}{", "%{:}", "%{time:%s}")
			}
		}
		return x.channelFor(c), why, false
	}
	ch = x.channelFor(c)
	return ch, why, true
}

func insertAt[T any](s []T, i int, v T) []T {
	s = append(s, v)
	copy(s[i+1:], s[i:])
	s[i] = v
	return s
}

func (x *cfgWorld) damage(s string) string {
	r := x.r
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b[i] = pick(r, byte('{'), '}', '[', ']', ':', ',', '"', '\'', '-', ' ', '\n', '\t', '&', '*', '!', '%', '#', '|', '>', '@', '`', '\\')
		case 3:
			b = append(b[:i], b[min(len(b), i+1+r.Intn(5)):]...)
		case 4:
			j := min(len(b), i+1+r.Intn(40))
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 5:
			ins := pick(r, "\x00", "\xff\xfe", "- ", ": ", "{", "[", "\n  ", "null", "!!int ", "&a ", "*a", "<<: ", "\t", "\r", "---\n", "...\n", "\"", "? ", "!!binary ", "%YAML 9\n")
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		case 6: // swap two lines
			ls := strings.Split(string(b), "\n")
			p, q := r.Intn(len(ls)), r.Intn(len(ls))
			ls[p], ls[q] = ls[q], ls[p]
			b = []byte(strings.Join(ls, "\n"))
		case 7:
			b = append([]byte(pick(r, "\ufeff", "\x00", "x", " ", "[]", "-", "{}")), b...)
		}
	}
	return string(b)
}

func c15(w *W) {
	useRec()
	r := w.Rng
	if w.Job.Kind == "fuzz" {
		c15fuzz(w)
		return
	}
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		x := newCfgWorld(w, fmt.Sprintf("w%d", ci))
		early := ci == 0
		for l := 1 + r.Intn(4); l > 0 && !w.Failed(); l-- {
			if !early {
				c := x.next()
				ch := x.channelFor(c)
				x.note("load %s as %s %q", cfgString(c), ch.name, clip(ch.text, 800))
				err, ok := guarded(w, fmt.Sprint(x.hist), ch.load)
				if !ok {
					return
				}
				if err != nil {
					w.Fail("valid configuration refused", "%v; history %v", err, x.hist)
					return
				}
				w.Count("valid loads", 1)
				w.Count("valid as "+ch.name, 1)
				x.cur = c
				x.mem = map[string]apiOutput{}
				x.ready()
				want := map[string]string{}
				x.burst(6+r.Intn(10), want)
				x.flush()
				if !x.compare(want, "after a valid load as "+ch.name) {
					return
				}
				w.Eval(hash(ch.name + ch.text + cfgString(c)))
			}
			for k := 1 + r.Intn(10); k > 0 && !w.Failed(); k-- {
				want := map[string]string{}
				if !early && r.Intn(2) == 0 {
					x.burst(1+r.Intn(8), want) // some of it waits
				}
				n0 := x.instances()
				ch, why, must := x.bad()
				h := len(x.hist)
				x.note("bad (%s) %s %q", why, ch.name, clip(ch.text, 1500))
				err, ok := guarded(w, fmt.Sprint(x.hist), ch.load)
				if !ok {
					return
				}
				w.Eval(hash(why + ch.text + fmt.Sprint(w.Job.Seed, x.seq, k)))
				if err == nil && must {
					w.Fail("bad configuration accepted", "%s; history %v", why, x.hist)
					return
				}
				if err == nil { // what it does is not specified; go back
					w.Count("odd configurations accepted", 1)
					x.hist = x.hist[:h]
					if early {
						continue
					}
					x.flush()
					x.drainAll()
					if err := mgr().SetConfig(x.cur); err != nil {
						w.Fail("valid configuration refused", "%v; history %v", err, x.hist)
						return
					}
					x.mem = map[string]apiOutput{}
					x.ready()
					continue
				}
				w.Count("bad loads", 1)
				if must {
					w.Count(ifel(why == "damaged texts", "damaged texts refused", why), 1)
				}
				if early {
					continue
				}
				if n1 := x.instances(); n1 != n0 {
					w.Fail("refused configuration had an effect", "recording outputs created, closed: %s before, %s after; history %v", n0, n1, x.hist)
					return
				}
				x.burst(3+r.Intn(8), want)
				if r.Intn(3) > 0 {
					x.flush()
				} else {
					x.flush()
					x.flush()
				}
				if !x.compare(want, "after the refusal of "+why) {
					return
				}
				w.Count("probes after a refusal", 1)
			}
			early = false
		}
		w.Sample("%s", clip(strings.Join(x.hist, " THEN "), 900))
	}
}

// instances describes the recording outputs created and closed so far.
func (x *cfgWorld) instances() string {
	recMu.Lock()
	defer recMu.Unlock()
	n, c := 0, 0
	for _, rs := range recs {
		for _, r := range rs {
			n++
			r.mu.Lock()
			c += r.closed
			r.mu.Unlock()
		}
	}
	return fmt.Sprintf("%d, %d", n, c)
}

// drainAll forgets what was written so far.
func (x *cfgWorld) drainAll() {
	x.drain()
	for n, s := range dirFiles(x.dir) {
		x.fileN[n] = len(s)
	}
}

// c15fuzz loads very many damaged and random texts; the configuration in effect
// is probed from time to time.
func c15fuzz(w *W) {
	r := w.Rng
	x := newCfgWorld(w, "w")
	x.cur = x.gen()
	if err := mgr().SetConfig(x.cur); err != nil {
		w.Fail("valid configuration refused", "%v; %s", err, cfgString(x.cur))
		return
	}
	x.ready()
	x.hist = []string{"load " + cfgString(x.cur)}
	var pool []string
	for i := 0; i < 20; i++ {
		c := x.gen()
		c.Loggers = c.Loggers[:min(len(c.Loggers), 3)]
		pool = append(pool, jsonText(r, c), yamlText(r, c))
	}
	pool = append(pool, "", "{}", "[]", "null", "1", "formats: 3", "loggers:\n - name: x\n   outputs: y\n", `{"formats":[1]}`, "a: &a [*a]", "&a [*a]", "<<: {a: 1}", "? a", "loggers: {}", "outputs: [[]]", "- - -", "!!binary x", "formats: [~]", "loggers: [~]", `{"loggers":[null]}`, `{"formats":null}`, `{"outputs":[{}]}`)
	for i := 0; i < w.Job.N && !w.Failed(); i++ {
		text := pool[r.Intn(len(pool))]
		if r.Intn(8) > 0 {
			text = x.damage(text)
		} else if r.Intn(4) == 0 {
			b := make([]byte, r.Intn(60))
			r.Read(b)
			text = string(b)
		}
		ext := pick(r, "json", "yaml", "yaml", "yml", "YAML", "Json")
		c, perr := refParse(text, ext)
		must := perr != nil || refValid(c) != ""
		if !must { // accepted ones are the business of the other job
			w.Count("damaged texts still valid", 1)
			continue
		}
		x.hist = append(x.hist[:1], fmt.Sprintf("bad %s %q", ext, clip(text, 3000)))
		err, ok := guarded(w, fmt.Sprint(x.hist), func() error { return mgr().LoadConfig([]byte(text), ext) })
		if !ok {
			return
		}
		if err == nil {
			w.Fail("bad configuration accepted", "%v %s; history %v", perr, refValidOr(c), x.hist)
			return
		}
		w.Eval(hash(ext + text))
		w.Count("bad loads", 1)
		w.Count("damaged texts refused", 1)
		if i%64 == 0 {
			want := map[string]string{}
			x.burst(10, want)
			x.flush()
			if !x.compare(want, "after refusals") {
				return
			}
			w.Count("probes after a refusal", 1)
		}
	}
}

func refValidOr(c *api.Config) string {
	if c == nil {
		return ""
	}
	return refValid(c)
}
