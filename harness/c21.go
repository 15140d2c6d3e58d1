//go:build archx

package main

import (
	atar "archive/tar"
	azip "archive/zip"
	"bytes"
	cgzip "compress/gzip"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/xtfly/log4g/verifx"
)

func init() {
	register(&Check{
		ID:   "C21",
		Rule: "a case makes an archive (tar, zip, gzip, tar in gzip; by the library or by the standard library in its variants) of 0 to 30 random entries (sizes 0 to megabytes, compressible or not, names with all kinds of characters and lengths, repeated names), copies it with archive.Copy into a new archive of any type, alone or after other entries or several copies into one target, and reads the result with the standard library and with the library: names, contents and order must be those of the sources. Copies of tar into tar and zip into zip are also compared in what is recorded of each entry (kind, permissions, owner, time (tar), link target, device, comment). Two entries for gzip, damaged or truncated sources (every cut of small archives), sources and targets failing at a random byte and a missing temporary directory must give an error, unless the result is nevertheless complete. Distinct by case; non-trivial with two or more entries, or an injected damage.",
		Assume: []string{
			"directories may be left out; links and devices are only copied between archives of the same type; names of entries are not empty and do not end in a slash",
			"a gzip archive holds one entry and its name is the one given by whoever opens it; copying no entry at all into gzip is not judged",
		},
		Plan: func(seed int64, th bool) []Job {
			n, c := 8, 200
			if th {
				n, c = 64, 800
			}
			var js []Job
			js = append(js, jobs("copy", seed, n, c, nil)...)
			js = append(js, jobs("damage", seed, n, c, nil)...)
			js = append(js, jobs("faults", seed, n, c, nil)...)
			js = append(js, jobs("meta", seed, n, c, nil)...)
			js = append(js, jobs("cuts", seed, n, c/8, nil)...)
			return js
		},
		Worker: c21,
		Min:    map[string]int{"evaluations": 2500, "copies": 2500, "entries compared": 10000, "pairs of types": 16, "copies refused": 1500, "second entries refused by gzip": 100, "cuts": 8000, "faults injected": 800, "damaged sources": 600, "entries over 1 MB": 5, "links and devices copied": 500, "sparse files": 100, "distinct": 1500},
	})
}

type entry21 struct {
	name string
	data []byte
}

type fi21 struct {
	name string
	size int64
	mode os.FileMode
	t    time.Time
}

func (f fi21) Name() string       { return f.name }
func (f fi21) Size() int64        { return f.size }
func (f fi21) Mode() os.FileMode  { return f.mode }
func (f fi21) ModTime() time.Time { return f.t }
func (f fi21) IsDir() bool        { return false }
func (f fi21) Sys() any           { return nil }

var kinds21 = []string{"tar", "zip", "gzip", "tgz"}

func genEntries(r *rand.Rand, n, maxSize int) []entry21 {
	var es []entry21
	for i := 0; i < n; i++ {
		name := pick(r, "file", "a.log.1", "dir/sub/file", "name with space", "ünïcödé/é", strings.Repeat("long/", 30)+"name", strings.Repeat("n", 110), "..hidden", "a\\b", "./rel", "x/../y", "tab\tname", "-dash", "log.2024-01-01 00:00", "/var/log/x", "//x", "a//b", "/0", ".", "..", "../up", "./0", " lead", "trail ", "C:\\x", "new\nline", "q?*", "UPPER")
		if r.Intn(3) > 0 {
			name += fmt.Sprint(i)
		}
		var d []byte
		size := r.Intn(pick(r, 1, 10, 100, 600, 5000, maxSize))
		if r.Intn(4) == 0 {
			size = pick(r, 0, 1, 511, 512, 513, 1024, 4096, 32768, 32769, 65536)
		}
		size = min(size, maxSize)
		d = make([]byte, size)
		switch r.Intn(3) {
		case 0:
			r.Read(d)
		case 1:
			copy(d, payload(recKey{i, size}, size))
		}
		es = append(es, entry21{name, d})
	}
	return es
}

// makeArchive makes an archive with the standard library or with the library.
func makeArchive(w *W, kind string, es []entry21, std bool) (bs []byte, err error) {
	r := w.Rng
	var b bytes.Buffer
	t := time.Unix(1e9+r.Int63n(1e8), r.Int63n(1e9))
	if std {
		var out io.Writer = &b
		var gz *cgzip.Writer
		switch kind {
		case "gzip":
			for i := 0; i < 1+r.Intn(2); i++ { // members
				gz, _ = cgzip.NewWriterLevel(&b, r.Intn(10))
				gz.Name = pick(r, "", "other")
				if i == 0 && len(es) > 0 {
					gz.Write(es[0].data)
				}
				gz.Close()
			}
			return b.Bytes(), nil
		case "zip":
			z := azip.NewWriter(&b)
			for _, e := range es {
				h := &azip.FileHeader{Name: e.name, Method: uint16(pick(r, 0, 8)), Modified: t, Comment: pick(r, "", "comment")}
				f, err := z.CreateHeader(h)
				if err != nil {
					return nil, err
				}
				f.Write(e.data)
			}
			z.SetComment(pick(r, "", "c"))
			err := z.Close()
			return b.Bytes(), err
		case "tgz":
			gz = cgzip.NewWriter(&b)
			out = gz
		}
		tw := atar.NewWriter(out)
		for _, e := range es {
			h := &atar.Header{Name: e.name, Mode: 0640, Size: int64(len(e.data)), ModTime: t, Format: pick(r, atar.FormatUnknown, atar.FormatPAX, atar.FormatGNU), Uname: "u"}
			if h.Format == atar.FormatUnknown {
				h.ModTime = t.Truncate(time.Second)
			}
			if err := tw.WriteHeader(h); err != nil {
				return nil, err
			}
			tw.Write(e.data)
		}
		err := tw.Close()
		if gz != nil {
			gz.Close()
		}
		return b.Bytes(), err
	}
	aw := verifx.NewWriter(kind, &b)
	if err := addTo(r, aw, es); err != nil {
		return nil, err
	}
	err = aw.Close()
	return b.Bytes(), err
}

func addTo(r *rand.Rand, aw verifx.Writer, es []entry21) error {
	for _, e := range es {
		if err := aw.NextFile(e.name, fi21{"base", int64(len(e.data)), 0644, time.Unix(1e9, 0)}); err != nil {
			return err
		}
		for d := e.data; len(d) > 0; {
			n := min(len(d), 1+r.Intn(70000))
			k, err := aw.Write(d[:n])
			if err != nil {
				return err
			}
			if k != n {
				return io.ErrShortWrite
			}
			d = d[n:]
		}
	}
	return nil
}

// readStd reads an archive with the standard library.
func readStd(kind string, bs []byte, name string) (es []entry21, err error) {
	var in io.Reader = bytes.NewReader(bs)
	switch kind {
	case "zip":
		z, err := azip.NewReader(bytes.NewReader(bs), int64(len(bs)))
		if err != nil {
			return nil, err
		}
		for _, f := range z.File {
			rc, err := f.Open()
			if err != nil {
				return es, err
			}
			d, err := io.ReadAll(rc)
			if err != nil {
				return es, err
			}
			es = append(es, entry21{f.Name, d})
		}
		return es, nil
	case "gzip", "tgz":
		g, err := cgzip.NewReader(in)
		if err != nil {
			return nil, err
		}
		if kind == "gzip" {
			d, err := io.ReadAll(g)
			return []entry21{{name, d}}, err
		}
		in = g
	}
	t := atar.NewReader(in)
	for {
		h, err := t.Next()
		if err == io.EOF {
			_, err = io.Copy(io.Discard, in)
			return es, err
		}
		if err != nil {
			return es, err
		}
		d, err := io.ReadAll(t)
		if err != nil {
			return es, err
		}
		es = append(es, entry21{h.Name, d})
	}
}

// readLib reads an archive with the library.
func readLib(r *rand.Rand, kind string, bs []byte, name string) (es []entry21, err error) {
	ar, err := verifx.NewReader(kind, bytes.NewReader(bs), int64(len(bs)), name)
	if err != nil {
		return nil, err
	}
	for {
		n, err := ar.NextFile()
		if err == io.EOF {
			return es, nil
		}
		if err != nil {
			return es, err
		}
		var b bytes.Buffer
		buf := make([]byte, 1+r.Intn(40000))
		if _, err := io.CopyBuffer(struct{ io.Writer }{&b}, struct{ io.Reader }{ar}, buf); err != nil {
			return es, err
		}
		es = append(es, entry21{n, b.Bytes()})
	}
}

// diff21 tells how two lists of entries differ; names in gzip archives do not count.
func diff21(kind string, want, got []entry21) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("entry %d of %d (%q) is missing", i+1, len(want), clip(want[i].name, 100))
		}
		if kind != "gzip" && want[i].name != got[i].name {
			return fmt.Sprintf("entry %d is named %q, should be %q", i+1, clip(got[i].name, 100), clip(want[i].name, 100))
		}
		if !bytes.Equal(want[i].data, got[i].data) {
			return fmt.Sprintf("entry %d (%q) has %d bytes %q, should have %d bytes %q", i+1, clip(want[i].name, 60), len(got[i].data), clip(string(got[i].data), 60), len(want[i].data), clip(string(want[i].data), 60))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d entries, should be %d; extra %q", len(got), len(want), clip(got[len(want)].name, 100))
	}
	return ""
}

// flaky fails after n bytes.
type flakyW struct {
	w io.Writer
	n int
	h bool
}

var errFlaky = errors.New("injected")

func (f *flakyW) Write(p []byte) (int, error) {
	if f.n >= 0 && len(p) > f.n {
		k, _ := f.w.Write(p[:f.n])
		f.n = 0
		f.h = true
		return k, errFlaky
	}
	if f.n >= 0 {
		f.n -= len(p)
	}
	return f.w.Write(p)
}

type flakyR struct {
	*bytes.Reader
	n int
	h bool
}

func (f *flakyR) Read(p []byte) (int, error) {
	if f.n == 0 {
		f.h = true
		return 0, errFlaky
	}
	if f.n > 0 && len(p) > f.n {
		p = p[:f.n]
	}
	k, err := f.Reader.Read(p)
	f.n -= k
	return k, err
}

func (f *flakyR) ReadAt(p []byte, off int64) (int, error) {
	if off+int64(len(p)) > int64(f.n) && f.n >= 0 && off < int64(f.Reader.Size()) && int64(f.n) < f.Reader.Size() {
		f.h = true
		return 0, errFlaky
	}
	return f.Reader.ReadAt(p, off)
}

func c21(w *W) {
	r := w.Rng
	tmp := w.Dir + "/tmp"
	os.Mkdir(tmp, 0755)
	os.Setenv("TMPDIR", tmp)
	for ci := 0; ci < w.Job.N && !w.Failed(); ci++ {
		func() {
			defer func() {
				if p := recover(); p != nil {
					w.Fail("panic in archive code", "case %d: %v\n%s", ci, p, debug.Stack())
				}
			}()
			switch w.Job.Kind {
			case "copy":
				c21copy(w, r, ci)
			case "damage":
				c21damage(w, r, ci)
			case "faults":
				c21faults(w, r, ci, tmp)
			case "meta":
				if ci%8 == 7 {
					c21sparse(w, r, ci)
				} else {
					c21meta(w, r, ci)
				}
			case "cuts":
				c21cuts(w, r, ci)
			}
		}()
		if left, _ := os.ReadDir(tmp); len(left) > 0 {
			w.Fail("temporary file left", "%d files, %s", len(left), left[0].Name())
		}
	}
}

func copy21(r *rand.Rand, dst verifx.Writer, src verifx.Reader) error {
	if r.Intn(3) == 0 {
		return verifx.CopyNop(dst, src)
	}
	return verifx.Copy(dst, src)
}

func count21(r *rand.Rand, kind string) int {
	if kind == "gzip" {
		return 1
	}
	return pick(r, 0, 1, 2, 2, 3, 5, 8, 30)
}

func c21copy(w *W, r *rand.Rand, ci int) {
	dk := pick(r, kinds21...)
	var b bytes.Buffer
	aw := verifx.NewWriter(dk, &b)
	var want []entry21
	var steps []string
	parts := pick(r, 1, 1, 1, 2, 3)
	var err error
	for p := 0; p < parts && err == nil; p++ {
		sk := pick(r, kinds21...)
		maxSize := 20000
		n := count21(r, sk)
		if r.Intn(15) == 0 {
			maxSize, n = 3<<20, min(n, 3)
		}
		if dk == "gzip" && p == 0 && r.Intn(2) == 0 {
			n = min(n, 1)
		}
		es := genEntries(r, n, maxSize)
		for _, e := range es {
			if len(e.data) > 1<<20 {
				w.Count("entries over 1 MB", 1)
			}
		}
		if r.Intn(6) == 0 { // direct
			steps = append(steps, fmt.Sprintf("add %d", len(es)))
			err = addTo(r, aw, es)
			want = append(want, es...)
			continue
		}
		src, e := makeArchive(w, sk, es, r.Intn(2) == 0)
		if e != nil {
			w.Fail("adding entries failed", "case %d: %s of %d entries: %v", ci, sk, len(es), e)
			return
		}
		name := "opened"
		// the archive itself must be right
		got, e := readLib(r, sk, src, name)
		if d := diff21(sk, es, got); e != nil || d != "" {
			w.Fail("entries read differ from those added", "case %d: %s: %v %s", ci, sk, e, d)
			return
		}
		w.Count("entries compared", len(es))
		ar, e := verifx.NewReader(sk, bytes.NewReader(src), int64(len(src)), name)
		if e != nil {
			w.Fail("opening an archive failed", "case %d: %s: %v", ci, sk, e)
			return
		}
		steps = append(steps, fmt.Sprintf("copy %s of %d", sk, len(es)))
		if sk == "gzip" {
			es[0].name = name
		}
		err = copy21(r, aw, ar)
		want = append(want, es...)
		w.Count("copies", 1)
		w.Key("pairs of types", sk+" "+dk)
	}
	cerr := aw.Close()
	if dk == "gzip" && len(want) != 1 {
		if len(want) > 1 {
			if err == nil && cerr == nil {
				w.Fail("gzip archive took several entries", "case %d: %v gave no error", ci, steps)
			}
			w.Count("second entries refused by gzip", 1)
			w.Count("copies refused", 1)
			w.Eval(fmt.Sprint(w.Job.Seed, ci))
		}
		return
	}
	if err != nil || cerr != nil {
		w.Fail("copying failed", "case %d: %v into %s: %v, close: %v", ci, steps, dk, err, cerr)
		return
	}
	c21compare(w, r, ci, dk, b.Bytes(), want, steps)
	key := ""
	if len(want) > 1 {
		key = fmt.Sprint(w.Job.Seed, ci)
	}
	w.Eval(key)
	w.Sample("%v into %s: %d entries, %d bytes", steps, dk, len(want), b.Len())
}

func c21compare(w *W, r *rand.Rand, ci int, dk string, bs []byte, want []entry21, steps []string) {
	got, err := readStd(dk, bs, "x")
	if d := diff21(dk, want, got); err != nil || d != "" {
		w.Fail("copy differs", "case %d: %v into %s: %v %s", ci, steps, dk, err, d)
		return
	}
	got, err = readLib(r, dk, bs, "x")
	if d := diff21(dk, want, got); err != nil || d != "" {
		w.Fail("copy read by the library differs", "case %d: %v into %s: %v %s", ci, steps, dk, err, d)
		return
	}
	w.Count("entries compared", 2*len(want))
}

// verdict judges a copy which met damage or a fault: an error, or a complete result.
func c21verdict(w *W, r *rand.Rand, ci int, what, sk, dk string, err error, out []byte, want []entry21) {
	if err != nil {
		w.Count("copies refused", 1)
		return
	}
	got, rerr := readStd(dk, out, "x")
	if d := diff21(dk, want, got); rerr != nil || d != "" {
		w.Fail("silent loss", "case %d: %s, %s into %s gave no error but %v %s", ci, what, sk, dk, rerr, d)
	}
	w.Count("complete in spite of damage", 1)
}

// tryCopy opens and copies; any error counts.
func tryCopy(r *rand.Rand, sk, dk string, in interface {
	io.Reader
	io.ReaderAt
}, size int64, out io.Writer) (err error) {
	ar, err := verifx.NewReader(sk, in, size, "x")
	if err != nil {
		return err
	}
	aw := verifx.NewWriter(dk, out)
	err = copy21(r, aw, ar)
	if cerr := aw.Close(); err == nil {
		err = cerr
	}
	return err
}

func c21src(w *W, r *rand.Rand, maxSize int) (sk, dk string, es []entry21, src []byte) {
	for {
		sk, dk = pick(r, kinds21...), pick(r, kinds21...)
		n := count21(r, sk)
		if dk == "gzip" {
			n = 1
		}
		es = genEntries(r, max(n, 1), maxSize)
		var err error
		src, err = makeArchive(w, sk, es, r.Intn(2) == 0)
		if err != nil {
			w.Fail("adding entries failed", "%s of %d entries: %v", sk, len(es), err)
			return
		}
		if sk == "gzip" {
			es[0].name = "x" // as opened
		}
		return
	}
}

// c21damage changes bytes of the source. What the standard library reads from it
// decides: an error, or other entries.
func c21damage(w *W, r *rand.Rand, ci int) {
	sk, dk, _, src := c21src(w, r, 20000)
	if w.Failed() || len(src) == 0 {
		return
	}
	bad := append([]byte(nil), src...)
	var what []string
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(bad))
		switch r.Intn(3) {
		case 0:
			bad[i] ^= 1 << r.Intn(8)
		case 1:
			bad = bad[:max(i, 1)]
		case 2:
			j := min(len(bad), i+1+r.Intn(600))
			bad = append(bad[:i:i], bad[j:]...)
		}
		what = append(what, fmt.Sprint(i))
		if len(bad) == 0 {
			bad = []byte{0}
		}
	}
	ref, rerr := readStd(sk, bad, "x")
	for _, e := range ref {
		if strings.HasSuffix(e.name, "/") || e.name == "" { // no file
			return
		}
	}
	w.Count("damaged sources", 1)
	var b bytes.Buffer
	err := tryCopy(r, sk, dk, bytes.NewReader(bad), int64(len(bad)), &b)
	w.Count("copies", 1)
	if sk == "tgz" || sk == "tar" {
		// a tar reader stops at the end marker: trailing damage may go unseen
		if ref2, e2 := readTarLoose(sk, bad); e2 == nil {
			ref, rerr = ref2, nil
		}
	}
	if rerr != nil {
		if err == nil {
			w.Fail("silent loss", "case %d: damaged %s (at %v of %d bytes; the standard library says %v) was copied into %s without error", ci, sk, what, len(src), rerr, dk)
		}
		w.Count("copies refused", 1)
	} else if dk == "gzip" && len(ref) != 1 {
		if len(ref) > 1 && err == nil {
			w.Fail("gzip archive took several entries", "case %d: %d entries of %s", ci, len(ref), sk)
		}
	} else {
		c21verdict(w, r, ci, "damaged source at "+fmt.Sprint(what), sk, dk, err, b.Bytes(), ref)
	}
	w.Eval(fmt.Sprint("d", w.Job.Seed, ci))
	w.Sample("%s of %d bytes damaged at %v, into %s: %v", sk, len(src), what, dk, err)
}

// readTarLoose reads the entries up to the end marker only.
func readTarLoose(kind string, bs []byte) (es []entry21, err error) {
	var in io.Reader = bytes.NewReader(bs)
	if kind == "tgz" {
		if in, err = cgzip.NewReader(in); err != nil {
			return nil, err
		}
	}
	t := atar.NewReader(in)
	for {
		h, err := t.Next()
		if err == io.EOF {
			return es, nil
		}
		if err != nil {
			return es, err
		}
		if h.Typeflag != atar.TypeReg || h.Name == "" || strings.HasSuffix(h.Name, "/") {
			return nil, errors.New("no file")
		}
		d, err := io.ReadAll(t)
		if err != nil {
			return es, err
		}
		es = append(es, entry21{h.Name, d})
	}
}

// c21cuts truncates small archives everywhere.
func c21cuts(w *W, r *rand.Rand, ci int) {
	sk, dk, es, src := c21src(w, r, 700)
	if len(es) > 3 {
		es = es[:3]
		var err error
		if src, err = makeArchive(w, sk, es, r.Intn(2) == 0); err != nil {
			w.Fail("adding entries failed", "%v", err)
			return
		}
	}
	for cut := 0; cut < len(src) && !w.Failed(); cut++ {
		if len(src) > 3000 && r.Intn(len(src)) > 1500 {
			continue
		}
		part := src[:cut]
		var b bytes.Buffer
		err := tryCopy(r, sk, dk, bytes.NewReader(part), int64(len(part)), &b)
		w.Count("cuts", 1)
		if err != nil {
			continue
		}
		// no error: then the format allows it (a tar cut between entries)
		want := es
		if sk == "tar" || sk == "tgz" {
			if ref, e := readTarLoose(sk, part); e == nil {
				want = ref
			}
		}
		if dk == "gzip" && len(want) == 0 {
			continue
		}
		got, rerr := readStd(dk, b.Bytes(), "x")
		if d := diff21(dk, want, got); rerr != nil || d != "" {
			w.Fail("silent loss", "case %d: the first %d of %d bytes of %s copied into %s gave no error but %v %s", ci, cut, len(src), sk, dk, rerr, d)
		}
	}
	w.Eval(fmt.Sprint("c", w.Job.Seed, ci))
	w.Count("copies", 1)
}

func c21faults(w *W, r *rand.Rand, ci int, tmp string) {
	sk, dk, es, src := c21src(w, r, 60000)
	if w.Failed() {
		return
	}
	fw := &flakyW{n: -1}
	fr := &flakyR{Reader: bytes.NewReader(src), n: len(src) + 1000000}
	var b bytes.Buffer
	fw.w = &b
	what := ""
	switch r.Intn(5) {
	case 0, 1:
		what = "target fails"
		// find out how much is written
		var c bytes.Buffer
		if tryCopy(r, sk, dk, bytes.NewReader(src), int64(len(src)), &c) != nil {
			return
		}
		fw.n = r.Intn(c.Len() + 1)
		what += fmt.Sprintf(" after %d of %d bytes", fw.n, c.Len())
	case 2, 3:
		fr.n = r.Intn(len(src) + 1)
		if fr.n == len(src) {
			fr.n = 1 << 40
		}
		what = fmt.Sprintf("source fails after %d of %d bytes", fr.n, len(src))
	case 4:
		what = "no temporary directory"
		os.Setenv("TMPDIR", tmp+"/missing")
		defer os.Setenv("TMPDIR", tmp)
	}
	err := tryCopy(r, sk, dk, fr, int64(len(src)), fw)
	w.Count("copies", 1)
	w.Count("faults injected", 1)
	if fw.h && err == nil {
		w.Fail("silent loss", "case %d: %s, %s into %s: no error although a write failed", ci, what, sk, dk)
	}
	want := es
	if err == nil && (sk == "tar" || sk == "tgz") && fr.h {
		w.Count("faults after the end marker", 1)
	}
	c21verdict(w, r, ci, what, sk, dk, err, b.Bytes(), want)
	w.Eval(fmt.Sprint("f", w.Job.Seed, ci))
	w.Sample("%s: %s into %s: %v", what, sk, dk, err)
}

// meta21 is what a tar or zip archive tells about an entry besides its contents.
type meta21 struct{ name, text string }

// c21meta copies tar archives into tar archives and zip archives into zip archives: what
// the source tells about its entries is kept. Directories may be left out.
func c21meta(w *W, r *rand.Rand, ci int) {
	zipped := r.Intn(2) == 0
	sk, dk := "zip", "zip"
	if !zipped {
		sk, dk = "tar", pick(r, "tar", "tgz")
	}
	var b bytes.Buffer
	var want []meta21
	n := pick(r, 0, 1, 2, 3, 8, 20)
	special := 0
	perm := func() int64 { return pick(r, int64(0644), 0600, 0755, 0400, 0, 0777, r.Int63n(01000)) }
	data := func() []byte { return []byte(payload(recKey{ci, r.Intn(1000)}, r.Intn(pick(r, 1, 100, 5000)))) }
	if zipped {
		z := azip.NewWriter(&b)
		for i := 0; i < n; i++ {
			h := &azip.FileHeader{Name: fmt.Sprintf("e%d", i), Method: uint16(pick(r, 0, 8)), Comment: pick(r, "", "comment", strings.Repeat("c", 300)), Modified: time.Unix(1e9, 0)}
			mode := os.FileMode(perm())
			d := data()
			switch r.Intn(6) {
			case 0:
				mode |= os.ModeSymlink
				d = []byte("target")
				special++
			case 1:
				h.Name += "/"
				mode |= os.ModeDir
				d = nil
				h.Method = 0
			}
			h.SetMode(mode)
			f, err := z.CreateHeader(h)
			if err != nil {
				fatal("%v", err)
			}
			f.Write(d)
			if mode.IsDir() {
				continue
			}
			want = append(want, meta21{h.Name, fmt.Sprintf("%v %q %x", mode, h.Comment, d)})
		}
		z.Close()
	} else {
		t := atar.NewWriter(&b)
		for i := 0; i < n; i++ {
			h := &atar.Header{Name: fmt.Sprintf("e%d", i), Mode: perm(), Uid: r.Intn(5000), Gid: r.Intn(5000), Uname: pick(r, "", "root", "ü"), Gname: pick(r, "", "wheel"), ModTime: time.Unix(1e9+r.Int63n(1e8), 0), Typeflag: atar.TypeReg}
			var d []byte
			switch r.Intn(9) {
			case 0:
				h.Typeflag, h.Linkname = atar.TypeSymlink, pick(r, "e0", "../x", strings.Repeat("l/", 80))
			case 1:
				h.Typeflag, h.Linkname = atar.TypeLink, "e0"
			case 2:
				h.Typeflag = atar.TypeFifo
			case 3:
				h.Typeflag, h.Devmajor, h.Devminor = atar.TypeChar, int64(r.Intn(100)), int64(r.Intn(100))
			case 4:
				h.Typeflag, h.Name = atar.TypeDir, h.Name+"/"
			case 5:
				h.Format, h.PAXRecords = atar.FormatPAX, map[string]string{"VERIF.key": "v\xc3\xa4lue"}
				fallthrough
			default:
				d = data()
				h.Size = int64(len(d))
			}
			if err := t.WriteHeader(h); err != nil {
				fatal("%v", err)
			}
			t.Write(d)
			if h.Typeflag == atar.TypeDir {
				continue
			}
			if h.Typeflag != atar.TypeReg {
				special++
			}
			want = append(want, meta21{h.Name, tarMeta(h, d)})
		}
		t.Close()
	}
	ar, err := verifx.NewReader(sk, bytes.NewReader(b.Bytes()), int64(b.Len()), "x")
	if err != nil {
		w.Fail("opening an archive failed", "case %d: %s: %v", ci, sk, err)
		return
	}
	var ob bytes.Buffer
	aw := verifx.NewWriter(dk, &ob)
	err = verifx.Copy(aw, ar)
	if cerr := aw.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		w.Fail("copying failed", "case %d: %s into %s, %d entries: %v", ci, sk, dk, n, err)
		return
	}
	var got []meta21
	if zipped {
		z, err := azip.NewReader(bytes.NewReader(ob.Bytes()), int64(ob.Len()))
		if err != nil {
			w.Fail("copy differs", "case %d: %s into %s: %v", ci, sk, dk, err)
			return
		}
		for _, f := range z.File {
			if f.Mode().IsDir() {
				continue
			}
			rc, err := f.Open()
			if err != nil {
				w.Fail("copy differs", "case %d: %s into %s: %s: %v", ci, sk, dk, f.Name, err)
				return
			}
			d, err := io.ReadAll(rc)
			got = append(got, meta21{f.Name, fmt.Sprintf("%v %q %x", f.Mode(), f.Comment, d)})
			if err != nil {
				w.Fail("copy differs", "case %d: %s into %s: %s: %v", ci, sk, dk, f.Name, err)
				return
			}
		}
	} else {
		var in io.Reader = &ob
		if dk == "tgz" {
			if in, err = cgzip.NewReader(in); err != nil {
				w.Fail("copy differs", "case %d: %s into %s: %v", ci, sk, dk, err)
				return
			}
		}
		t := atar.NewReader(in)
		for {
			h, err := t.Next()
			if err == io.EOF {
				break
			}
			var d []byte
			if err == nil {
				d, err = io.ReadAll(t)
			}
			if err != nil {
				w.Fail("copy differs", "case %d: %s into %s: %v", ci, sk, dk, err)
				return
			}
			if h.Typeflag != atar.TypeDir {
				got = append(got, meta21{h.Name, tarMeta(h, d)})
			}
		}
	}
	for i := 0; i < max(len(got), len(want)); i++ {
		var g, e meta21
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			e = want[i]
		}
		if g != e {
			w.Fail("copy differs", "case %d: %s into %s, entry %d of %d: %s %s, should be %s %s", ci, sk, dk, i+1, len(want), g.name, clip(g.text, 300), e.name, clip(e.text, 300))
			return
		}
	}
	w.Count("copies", 1)
	w.Count("entries compared", len(want))
	w.Count("links and devices copied", special)
	key := ""
	if len(want) > 1 {
		key = fmt.Sprint("meta", w.Job.Seed, ci)
	}
	w.Eval(key)
}

// c21sparse copies a tar with a sparse file, which package archive/tar reads but does not
// write: another archive gets the expanded file, or the copy gives an error.
func c21sparse(w *W, r *rand.Rand, ci int) {
	var b bytes.Buffer
	var want []entry21
	reg := func(n int) {
		for ; n > 0; n-- {
			t := atar.NewWriter(&b)
			d := []byte(payload(recKey{ci, n}, r.Intn(2000)))
			name := fmt.Sprintf("e%d", len(want))
			t.WriteHeader(&atar.Header{Name: name, Mode: 0644, Size: int64(len(d))})
			t.Write(d)
			t.Flush()
			want = append(want, entry21{name, d})
		}
	}
	reg(r.Intn(3))
	h := make([]byte, 512)
	put := func(at int, f string, a ...any) { copy(h[at:], fmt.Sprintf(f, a...)) }
	data := []byte(payload(recKey{ci, 99}, 1+r.Intn(1500)))
	hole := r.Intn(100000)
	put(0, "sparse")
	put(100, "%07o", 0644)
	put(108, "%07o", 0)
	put(116, "%07o", 0)
	put(124, "%011o", len(data))
	put(136, "%011o", 1000000000)
	put(148, "        ")
	put(156, "S")
	put(257, "ustar  \x00")
	put(386, "%011o", hole)
	put(398, "%011o", len(data))
	put(483, "%011o", hole+len(data))
	sum := 0
	for _, c := range h {
		sum += int(c)
	}
	put(148, "%06o\x00 ", sum)
	b.Write(h)
	b.Write(data)
	b.Write(make([]byte, (512-len(data)%512)%512))
	want = append(want, entry21{"sparse", append(make([]byte, hole), data...)})
	reg(r.Intn(3))
	b.Write(make([]byte, 1024))
	if got, err := readStd("tar", b.Bytes(), ""); err != nil || diff21("tar", want, got) != "" {
		fatal("sparse tar: %v %s", err, diff21("tar", want, got))
	}
	dk := pick(r, "tar", "zip", "tgz", "tar")
	var ob bytes.Buffer
	ar, err := verifx.NewReader("tar", bytes.NewReader(b.Bytes()), int64(b.Len()), "x")
	if err != nil {
		w.Fail("opening an archive failed", "case %d: %v", ci, err)
		return
	}
	aw := verifx.NewWriter(dk, &ob)
	err = copy21(r, aw, ar)
	if cerr := aw.Close(); err == nil {
		err = cerr
	}
	w.Count("sparse files", 1)
	w.Count("copies", 1)
	c21verdict(w, r, ci, "sparse file", "tar", dk, err, ob.Bytes(), want)
	w.Eval(fmt.Sprint("sparse", w.Job.Seed, ci))
}

func tarMeta(h *atar.Header, d []byte) string {
	return fmt.Sprintf("type %c mode %o ids %d %d %q %q link %q device %d %d time %d records %q %x", h.Typeflag, h.Mode, h.Uid, h.Gid, h.Uname, h.Gname, h.Linkname, h.Devmajor, h.Devminor, h.ModTime.Unix(), h.PAXRecords["VERIF.key"], d)
}
