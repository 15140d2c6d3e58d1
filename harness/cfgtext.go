package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/xtfly/log4g/api"
	"gopkg.in/yaml.v2"
)

// ---- configuration texts, written without the library's own tags

type cfgDoc struct {
	formats, outputs []map[string]string
	loggers          []api.CfgLogger
}

func docOf(c *api.Config) *cfgDoc {
	d := &cfgDoc{loggers: c.Loggers}
	for _, f := range c.Formats {
		d.formats = append(d.formats, f)
	}
	for _, o := range c.Outputs {
		d.outputs = append(d.outputs, o)
	}
	return d
}

func jsonText(r *rand.Rand, c *api.Config) string {
	type lg struct {
		Name    string   `json:"name"`
		Level   *string  `json:"level,omitempty"`
		Outputs []string `json:"outputs"`
	}
	d := docOf(c)
	ls := []lg{}
	for i := range d.loggers {
		l := lg{Name: d.loggers[i].Name, Outputs: d.loggers[i].OutputNames}
		if d.loggers[i].Level != "" || r.Intn(3) == 0 {
			l.Level = &d.loggers[i].Level
		}
		if len(l.Outputs) == 0 && r.Intn(2) == 0 {
			l.Outputs = []string{}
		}
		ls = append(ls, l)
	}
	m := map[string]any{"formats": d.formats, "outputs": d.outputs, "loggers": ls}
	var bs []byte
	if r.Intn(2) == 0 {
		bs, _ = json.Marshal(m)
	} else {
		bs, _ = json.MarshalIndent(m, "", pick(r, " ", "    ", "\t"))
	}
	s := string(bs)
	if r.Intn(3) == 0 {
		s = pick(r, " ", "\n", "\r\n") + s + pick(r, "\n", "  \n")
	}
	return s
}

var plainYAML = regexp.MustCompile(`^[A-Za-z0-9][A-Za-z0-9_./]*$`)

func yamlScalar(r *rand.Rand, s string) string {
	if plainYAML.MatchString(s) && s != "null" && s != "Null" && s != "NULL" && r.Intn(3) > 0 {
		return s
	}
	if !strings.ContainsAny(s, "\n\r\t\x00") && r.Intn(2) == 0 {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 32:
			fmt.Fprintf(&b, `\x%02x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// yamlText writes block style YAML with varied quoting, order and comments.
func yamlText(r *rand.Rand, c *api.Config) string {
	d := docOf(c)
	var b strings.Builder
	eol := pick(r, "\n", "\n", "\n", "\r\n")
	line := func(f string, a ...any) {
		if r.Intn(12) == 0 {
			b.WriteString(pick(r, "", "# a comment: with - signs", "   # indented") + eol)
		}
		fmt.Fprintf(&b, f, a...)
		b.WriteString(eol)
	}
	if r.Intn(4) == 0 {
		line("---")
	}
	ind := strings.Repeat(" ", pick(r, 0, 2, 4))
	maps := func(name string, ms []map[string]string) {
		if len(ms) == 0 {
			line("%s: []", name)
			return
		}
		line("%s:", name)
		flow := r.Intn(4) == 0
		for _, m := range ms {
			var kvs []string
			for k, v := range m {
				kvs = append(kvs, k+": "+yamlScalar(r, v))
			}
			sortShuffle(r, kvs)
			if flow {
				line("%s- {%s}", ind, strings.Join(kvs, ", "))
				continue
			}
			for i, kv := range kvs {
				line("%s%s%s", ind, ifel(i == 0, "- ", "  "), kv)
			}
		}
	}
	parts := []func(){
		func() { maps("formats", d.formats) },
		func() { maps("outputs", d.outputs) },
		func() {
			line("loggers:")
			for _, l := range d.loggers {
				kvs := []string{"name: " + yamlScalar(r, l.Name)}
				if l.Level != "" || r.Intn(3) == 0 {
					kvs = append(kvs, "level: "+yamlScalar(r, l.Level))
				}
				if len(l.OutputNames) > 0 || r.Intn(2) == 0 {
					var q []string
					for _, n := range l.OutputNames {
						q = append(q, yamlScalar(r, n))
					}
					if r.Intn(2) == 0 || len(q) == 0 {
						kvs = append(kvs, "outputs: ["+strings.Join(q, ", ")+"]")
					} else {
						kvs = append(kvs, "outputs:"+eol+ind+"    - "+strings.Join(q, eol+ind+"    - "))
					}
				}
				sortShuffle(r, kvs)
				for i, kv := range kvs {
					line("%s%s%s", ind, ifel(i == 0, "- ", "  "), kv)
				}
			}
		},
	}
	for _, i := range r.Perm(3) {
		parts[i]()
	}
	return b.String()
}

func sortShuffle(r *rand.Rand, s []string) {
	// maps iterate in random order; the seed alone decides
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
}

// refParse parses a text with the same packages the documentation names.
func refParse(text, ext string) (*api.Config, error) {
	var d struct {
		Formats []map[string]string `yaml:"formats" json:"formats"`
		Outputs []map[string]string `yaml:"outputs" json:"outputs"`
		Loggers []struct {
			Name    string   `yaml:"name" json:"name"`
			Level   string   `yaml:"level" json:"level"`
			Outputs []string `yaml:"outputs" json:"outputs"`
		} `yaml:"loggers" json:"loggers"`
	}
	var err error
	switch strings.ToLower(ext) {
	case "yaml", "yml":
		func() {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic %v", p)
				}
			}()
			err = yaml.Unmarshal([]byte(text), &d)
		}()
	case "json":
		err = json.Unmarshal([]byte(text), &d)
	default:
		err = fmt.Errorf("unsupported type %q", ext)
	}
	if err != nil {
		return nil, err
	}
	c := &api.Config{}
	for _, f := range d.Formats {
		c.Formats = append(c.Formats, f)
	}
	for _, f := range d.Outputs {
		c.Outputs = append(c.Outputs, f)
	}
	for _, l := range d.Loggers {
		c.Loggers = append(c.Loggers, api.CfgLogger{Name: l.Name, Level: l.Level, OutputNames: l.Outputs})
	}
	return c, nil
}

// refValid says what is wrong with a configuration.
func refValid(c *api.Config) string {
	f, o, l := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, x := range c.Formats {
		if f[x["name"]] {
			return "two formats " + x["name"]
		}
		f[x["name"]] = true
	}
	for _, x := range c.Outputs {
		if o[x["name"]] {
			return "two outputs " + x["name"]
		}
		o[x["name"]] = true
		if !f[x["format"]] {
			return "undefined format " + x["format"]
		}
	}
	for _, x := range c.Loggers {
		if l[x.Name] {
			return "two loggers " + x.Name
		}
		l[x.Name] = true
		for _, n := range x.OutputNames {
			if !o[n] {
				return "undefined output " + n
			}
		}
	}
	return ""
}

// cloneCfg copies deeply.
func cloneCfg(c *api.Config) *api.Config {
	d := &api.Config{}
	for _, f := range c.Formats {
		d.Formats = append(d.Formats, copyMap(f))
	}
	for _, f := range c.Outputs {
		d.Outputs = append(d.Outputs, copyMap(f))
	}
	for _, l := range c.Loggers {
		l.OutputNames = append([]string(nil), l.OutputNames...)
		d.Loggers = append(d.Loggers, l)
	}
	return d
}
