package main

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// unarchive returns the contents of an archive with exactly one entry.
func unarchive(path string) (string, error) {
	bs, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	if strings.HasSuffix(path, ".gz") {
		r, err := gzip.NewReader(bytes.NewReader(bs))
		if err != nil {
			return "", err
		}
		b, err := io.ReadAll(r)
		return string(b), err
	}
	r, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs)))
	if err != nil {
		return "", err
	}
	if len(r.File) != 1 {
		return "", fmt.Errorf("%d entries", len(r.File))
	}
	f, err := r.File[0].Open()
	if err != nil {
		return "", err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	return string(b), err
}

// gz compresses.
func gz(s string) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	z.Write([]byte(s))
	z.Close()
	return b.Bytes()
}

// rolled is one backup and/or archive of a log.
type rolled struct {
	roll    string
	n       int64 // order
	backup  bool
	text    string // of the backup
	archs   []string
	archTxt []string
}

// rolledFiles lists the backups and archives of a log, oldest first. pattern is ""
// for a log rolled by size. Archives with the contents junk tells do not count.
func rolledFiles(dir, base, pattern string, prefix bool, junk ...map[string]string) (rs []*rolled, cur string, err error) {
	es, e := os.ReadDir(dir)
	if e != nil && !os.IsNotExist(e) {
		return nil, "", e
	}
	m := map[string]*rolled{}
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		name := e.Name()
		if name == base {
			cur = readFile(filepath.Join(dir, name))
			continue
		}
		ext := filepath.Ext(name)
		arch := ext == ".gz" || ext == ".zip"
		if arch {
			skip := false
			for _, j := range junk {
				skip = skip || j[name] != "" && readFile(filepath.Join(dir, name)) == j[name]
			}
			if skip {
				continue
			}
			name = strings.TrimSuffix(name, ext)
		}
		roll, ok := rollName(name, base, prefix)
		if !ok {
			continue
		}
		var n int64
		if pattern == "" {
			v, err := strconv.ParseInt(roll, 10, 64)
			if err != nil || strconv.FormatInt(v, 10) != roll {
				continue
			}
			n = v
		} else {
			t, err := time.ParseInLocation(pattern, roll, time.Local)
			if err != nil {
				continue
			}
			n = t.UnixNano()
		}
		x := m[roll]
		if x == nil {
			x = &rolled{roll: roll, n: n}
			m[roll] = x
			rs = append(rs, x)
		}
		if arch {
			t, err := unarchive(filepath.Join(dir, e.Name()))
			if err != nil {
				return nil, "", fmt.Errorf("archive %s is damaged: %v", e.Name(), err)
			}
			x.archs = append(x.archs, e.Name())
			x.archTxt = append(x.archTxt, t)
		} else {
			x.backup = true
			x.text = readFile(filepath.Join(dir, e.Name()))
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
	return
}

// wholeLog joins archives, backups and current file. Where both a backup and an
// archive exist they must be equal.
func wholeLog(rs []*rolled, cur string) (string, error) {
	var b strings.Builder
	for _, x := range rs {
		t := x.text
		if !x.backup {
			t = x.archTxt[0]
		}
		for i, a := range x.archTxt {
			if a != t {
				return "", fmt.Errorf("archive %s holds %q, not the backup's %q", x.archs[i], clip(a, 200), clip(t, 200))
			}
		}
		b.WriteString(t)
	}
	b.WriteString(cur)
	return b.String(), nil
}

func rollsString(rs []*rolled, cur string) string {
	var s []string
	for _, x := range rs {
		t := x.roll
		if x.backup {
			t += fmt.Sprintf("[%d]", len(x.text))
		}
		for i := range x.archs {
			t += fmt.Sprintf("<%s %d>", filepath.Ext(x.archs[i]), len(x.archTxt[i]))
		}
		s = append(s, t)
	}
	return strings.Join(append(s, fmt.Sprintf("current[%d]", len(cur))), " ")
}
