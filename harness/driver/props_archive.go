package driver

import (
	stdtar "archive/tar"
	stdzip "archive/zip"
	"bytes"
	stdgzip "compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/internal/archive"
	"github.com/xtfly/log4g/internal/archive/gzip"
	"github.com/xtfly/log4g/internal/archive/tar"
	"github.com/xtfly/log4g/internal/archive/zip"
	"pgregory.net/rapid"
)

// C21: archives. Lists of files are written, read back by the package's own
// readers and by the standard library, copied between formats, damaged and
// written to or read from failing streams.

type arcFile struct {
	Name  []byte
	Size  int
	Kind  int // of contents
	Seed  int
	Chunk int // size of writes; 0: all at once
	Mode  int
	Read  int // when read back: 0 all, 1 part, 2 nothing, 3 all in small pieces
}

type arcSource struct {
	Format string
	Std    int // written by the standard library, in one of its ways
	Files  []arcFile
	Wrap   bool // read through a NopCloser
	Pieces int  // the stream yields at most so many bytes at once; 0: any number
	Dirs   int  // directories in an archive of the standard library's making: before every such file
}

type damage struct {
	Kind string // trunc, flip, set, del, ins, zero
	At   int    // per mille of the archive
	Off  int
	N    int
	Val  int
}

type arcCase struct {
	Src     []arcSource
	Dst     string
	WrapDst bool // the writer's type is hidden from Copy
	Conc    int  // so many such copies at the same time
	Second  bool // a second file is given to gzip
	Damage  []damage
	SrcFail int // per mille of the source after which its stream fails; 0: never
	DstFail int // bytes after which the destination's stream fails; 0: never
	Foreign bool
	Closers []bool // of a tar writer; true: fails
}

func (f *arcFile) data() []byte {
	b := make([]byte, f.Size)
	s := uint32(f.Seed)*2654435761 + 12345
	switch f.Kind {
	case 0: // text
		for i := range b {
			b[i] = "the quick brown fox\n"[(i+f.Seed)%20]
		}
	case 1: // noise
		for i := range b {
			s ^= s << 13
			s ^= s >> 17
			s ^= s << 5
			b[i] = byte(s)
		}
	case 2: // zeros
	case 3: // lines
		for i := range b {
			s = s*1664525 + 1013904223
			b[i] = "abcdefghijklmnop"[s>>28]
			if s>>20&63 == 0 {
				b[i] = '\n'
			}
		}
	}
	return b
}

var formats = []string{"gzip", "tar", "zip", "tgz"}

func genArcName(t *rapid.T) []byte {
	piece := func() string {
		return pick(t, "a", "log", "app.log", "rf.log.1", "x y", "é", "日志", "ÿ", "-", "~", "%s", "a=b", "\xff\xfe", "\"", "...", "#", ".hidden", "CON", "a:b")
	}
	s := piece()
	switch flat(t, 0, 7) {
	case 0:
		s = "/" + s
	case 1:
		s = piece() + "/" + s
	case 2:
		s = pick(t, "../", "./", "a//", "a/../", "\\", "c:\\", " ", "\n", "\t") + s
	case 3:
		s = strings.Repeat(pick(t, "n", "日", "d/", "ab/"), flat(t, 30, 90)) + s
	case 4:
		k := flat(t, 95, 260)
		s = strings.Repeat("l", k) + s
	}
	if len(s) > 300 {
		s = s[:300]
	}
	s = strings.TrimRight(s, "/")
	if s == "" {
		s = "f"
	}
	return []byte(s)
}

func genArcFile(t *rapid.T, deep bool) arcFile {
	f := arcFile{Name: genArcName(t), Kind: flat(t, 0, 3), Seed: flat(t, 1, 1000), Mode: pick(t, 0, 0644, 0400, 0755, 0666), Read: flat(t, 0, 3)}
	switch flat(t, 0, 9) {
	case 0:
		f.Size = 0
	case 1, 2:
		f.Size = flat(t, 1, 20)
	case 3, 4:
		f.Size = pick(t, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192)
	case 5, 6:
		f.Size = flat(t, 1, 5000)
	case 7:
		f.Size = pick(t, 32767, 32768, 32769, 65535, 65536, 65537, 70000)
	case 8:
		f.Size = flat(t, 20000, 120000)
	default:
		f.Size = flat(t, 1, 300)
	}
	if deep && chance(t, 3) {
		f.Size = flat(t, 200000, 3000000)
	}
	if chance(t, 40) {
		f.Chunk = pick(t, 1, 7, 100, 512, 4096, 40000)
		if f.Chunk == 1 && f.Size > 5000 {
			f.Chunk = 333
		}
	}
	return f
}

func genArc(t *rapid.T) arcCase {
	c := arcCase{Dst: pick(t, formats...), WrapDst: chance(t, 20), Foreign: chance(t, 20)}
	src := func() arcSource {
		s := arcSource{Format: pick(t, formats...), Wrap: chance(t, 25)}
		if chance(t, 30) {
			s.Std = flat(t, 1, 4)
			if s.Format != "gzip" && chance(t, 40) {
				s.Dirs = flat(t, 1, 3)
			}
		}
		if chance(t, 30) {
			s.Pieces = pick(t, 1, 3, 512, 1000)
		}
		k := flat(t, 0, 4)
		many := chance(t, 6)
		if many {
			k = flat(t, 5, 120)
		}
		if s.Format == "gzip" {
			k = 1
		}
		for i := 0; i < k; i++ {
			f := genArcFile(t, !many)
			if many {
				f.Size %= 3000
			}
			if s.Std == 0 && s.Format != "gzip" && chance(t, 8) {
				f.Name = nil // that of its FileInfo
			}
			if i > 0 && chance(t, 15) {
				f.Name = s.Files[0].Name
			}
			s.Files = append(s.Files, f)
		}
		if s.Pieces == 1 {
			for i := range s.Files {
				s.Files[i].Size %= 3000
			}
		}
		return s
	}
	k := 1
	if chance(t, 25) {
		k = flat(t, 2, 3)
	}
	for i := 0; i < k; i++ {
		c.Src = append(c.Src, src())
	}
	c.Second = chance(t, 50)
	if chance(t, 10) {
		c.Conc = flat(t, 2, 5)
	}
	if chance(t, 50) {
		for i := flat(t, 1, 3); i > 0; i-- {
			c.Damage = append(c.Damage, damage{Kind: pick(t, "trunc", "flip", "flip", "set", "del", "ins", "zero"), At: flat(t, 0, 1000), Off: flat(t, -40, 40), N: pick(t, 1, 1, 2, 4, 8, 22, 46), Val: flat(t, 0, 255)})
		}
	}
	if chance(t, 25) {
		c.SrcFail = flat(t, 1, 1000)
	}
	if chance(t, 30) {
		for i := flat(t, 1, 4); i > 0; i-- {
			c.Closers = append(c.Closers, chance(t, 30))
		}
	}
	if chance(t, 25) {
		c.DstFail = pick(t, 1, 10, 100, 600, 5000, 30000)
	}
	return c
}

// stream limits what a read yields and fails from some byte on.
type stream struct {
	b      []byte
	at     int
	pieces int
	fail   int // -1: never
	err    bool
}

var errStream = errors.New("the stream failed")

func (s *stream) Read(p []byte) (int, error) {
	if s.fail >= 0 && s.at >= s.fail {
		s.err = true
		return 0, errStream
	}
	if s.at >= len(s.b) {
		return 0, io.EOF
	}
	if s.pieces > 0 && len(p) > s.pieces {
		p = p[:s.pieces]
	}
	e := len(s.b)
	if s.fail >= 0 && s.fail < e {
		e = s.fail
	}
	n := copy(p, s.b[s.at:e])
	s.at += n
	return n, nil
}

func (s *stream) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || off > int64(len(s.b)) {
		return 0, io.EOF
	}
	if s.fail >= 0 && off+int64(len(p)) > int64(s.fail) {
		s.err = true
		return 0, errStream
	}
	n := copy(p, s.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type sink struct {
	bytes.Buffer
	fail int // bytes; 0: never
	err  bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.fail > 0 && s.Len()+len(p) > s.fail {
		s.err = true
		n, _ := s.Buffer.Write(p[:s.fail-s.Len()])
		return n, errStream
	}
	return s.Buffer.Write(p)
}

// ownWriter of a format
func ownWriter(format string, w io.Writer) archive.WriteCloser {
	switch format {
	case "gzip":
		return gzip.NewWriter(w)
	case "zip":
		return zip.NewWriter(w)
	case "tar":
		return tar.NewWriter(w)
	}
	gw := gzip.NewWriter(w)
	return tar.NewWriteMultiCloser(gw, gw)
}

func ownReader(format string, s *stream, name string) (archive.ReadCloser, error) {
	switch format {
	case "gzip":
		r, err := gzip.NewReader(s, name)
		if err != nil {
			return nil, err
		}
		return r, nil
	case "zip":
		r, err := zip.NewReader(s, int64(len(s.b)))
		if err != nil {
			return nil, err
		}
		// unlike NopCloser this keeps the type Copy looks for
		return struct {
			*zip.Reader
			io.Closer
		}{r, io.NopCloser(nil)}, nil
	case "tar":
		return struct {
			*tar.Reader
			io.Closer
		}{tar.NewReader(s), io.NopCloser(nil)}, nil
	}
	r, err := gzip.NewReader(s, name)
	if err != nil {
		return nil, err
	}
	return struct {
		*tar.Reader
		io.Closer
	}{tar.NewReader(r), r}, nil
}

type hidden struct{ archive.Writer }

type entry struct {
	name string
	data []byte
}

func (s *arcSource) name(i int) string {
	if len(s.Files[i].Name) == 0 && s.Format != "gzip" {
		return scratchName(i)
	}
	return string(s.Files[i].Name)
}

func (s *arcSource) want() (r []entry) {
	for i := range s.Files {
		r = append(r, entry{s.name(i), s.Files[i].data()})
	}
	return
}

const readLimit = 64 << 20

// readOwn reads everything with the package's own reader. hints say how to
// read the files; nil: completely.
func readOwn(format string, s *stream, name string, how []arcFile) (r []entry, err error) {
	rd, err := ownReader(format, s, name)
	if err != nil {
		return nil, err
	}
	defer rd.Close()
	for i := 0; ; i++ {
		n, err := rd.NextFile()
		if err == io.EOF {
			// and it stays so
			if _, err := rd.NextFile(); err != io.EOF {
				return r, fmt.Errorf("NextFile after the end: %v", err)
			}
			return r, nil
		}
		if err != nil {
			return r, err
		}
		if i > 1000 {
			return r, fmt.Errorf("no end of files")
		}
		e := entry{name: n}
		mode := 0
		if i < len(how) {
			mode = how[i].Read
		}
		switch mode {
		case 1:
			e.data = make([]byte, how[i].Size/2)
			if _, err := io.ReadFull(rd, e.data); err != nil {
				return r, err
			}
		case 2:
		case 3:
			var b bytes.Buffer
			_, err = io.CopyBuffer(struct{ io.Writer }{&b}, struct{ io.Reader }{io.LimitReader(rd, readLimit)}, make([]byte, 13))
			e.data = b.Bytes()
		default:
			e.data, err = io.ReadAll(io.LimitReader(rd, readLimit))
		}
		r = append(r, e)
		if err != nil {
			return r, err
		}
	}
}

// readStd reads everything with the standard library.
func readStd(format string, b []byte, name string) (r []entry, err error) {
	switch format {
	case "gzip":
		zr, err := stdgzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(io.LimitReader(zr, readLimit))
		if err != nil {
			return nil, err
		}
		return []entry{{name, d}}, zr.Close()
	case "zip":
		zr, err := stdzip.NewReader(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			return nil, err
		}
		for _, f := range zr.File {
			rc, err := f.Open()
			if err != nil {
				return nil, err
			}
			d, err := io.ReadAll(io.LimitReader(rc, readLimit))
			rc.Close()
			if err != nil {
				return nil, err
			}
			r = append(r, entry{f.Name, d})
		}
		return r, nil
	case "tgz":
		zr, err := stdgzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		// the whole stream, its checksum included
		if b, err = io.ReadAll(io.LimitReader(zr, readLimit)); err != nil {
			return nil, err
		}
	}
	tr := stdtar.NewReader(bytes.NewReader(b))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		r = append(r, entry{h.Name, d})
	}
}

// checkDirs copies an archive that has directories in it, too: what arrives are
// its files, between tar archives nothing else.
func (c *arcCase) checkDirs(s *arcSource) error {
	only := s.Format != "zip" && (c.Dst == "tar" || c.Dst == "tgz") && !s.Wrap && !c.WrapDst
	if c.Dst != "zip" && !only {
		return nil // a regular file with the name of a directory is refused
	}
	dst := &sink{}
	w := ownWriter(c.Dst, dst)
	var aw archive.Writer = w
	if c.WrapDst {
		aw = hidden{w}
	}
	r, err := ownReader(s.Format, &stream{b: s.writeStd(), pieces: s.Pieces, fail: -1}, "x")
	if err != nil {
		return fmt.Errorf("reader: %v", err)
	}
	defer r.Close()
	var ar archive.Reader = r
	if s.Wrap {
		ar = archive.NopCloser(r)
	}
	if err := archive.Copy(aw, ar); err != nil {
		return fmt.Errorf("Copy: %v", err)
	}
	if err := w.Close(); err != nil {
		return fmt.Errorf("Close: %v", err)
	}
	got, err := readStd(c.Dst, dst.Bytes(), "x")
	if err != nil {
		return err
	}
	var files []entry
	for _, e := range got {
		if strings.HasPrefix(e.name, dirName) && len(e.data) == 0 {
			if only {
				return fmt.Errorf("the directory %q was copied as well", e.name)
			}
			continue
		}
		files = append(files, e)
	}
	return sameEntries(files, s.want(), nil)
}

const dirName = "a directory-"

// writeStd makes an archive with the standard library.
func (s *arcSource) writeStd() []byte {
	var b bytes.Buffer
	must := func(err error) {
		if err != nil {
			infra("archive of the standard library: %v", err)
		}
	}
	switch s.Format {
	case "gzip":
		lvl := []int{stdgzip.BestSpeed, stdgzip.NoCompression, stdgzip.BestCompression, stdgzip.HuffmanOnly}[s.Std-1]
		w, err := stdgzip.NewWriterLevel(&b, lvl)
		must(err)
		if s.Std%2 == 0 {
			w.Name, w.Comment, w.Extra = "inside", "c", []byte("extra")
		}
		d := s.Files[0].data()
		if s.Std == 4 { // several members
			_, err = w.Write(d[:len(d)/3])
			must(err)
			must(w.Close())
			w.Reset(&b)
			d = d[len(d)/3:]
		}
		_, err = w.Write(d)
		must(err)
		must(w.Close())
		return b.Bytes()
	case "zip":
		w := stdzip.NewWriter(&b)
		for i := range s.Files {
			if s.Dirs > 0 && i%s.Dirs == 0 {
				_, err := w.CreateHeader(&stdzip.FileHeader{Name: fmt.Sprintf("%s%d/", dirName, i)})
				must(err)
			}
			h := &stdzip.FileHeader{Name: string(s.Files[i].Name), Method: stdzip.Deflate}
			if s.Std%2 == 0 {
				h.Method = stdzip.Store
			}
			if s.Std > 2 {
				h.Comment = "c"
				h.SetMode(0640)
			}
			f, err := w.CreateHeader(h)
			must(err)
			_, err = f.Write(s.Files[i].data())
			must(err)
		}
		if s.Std == 3 {
			must(w.SetComment("an archive"))
		}
		must(w.Close())
		return b.Bytes()
	}
	var out io.Writer = &b
	var zw *stdgzip.Writer
	if s.Format == "tgz" {
		zw = stdgzip.NewWriter(&b)
		out = zw
	}
	w := stdtar.NewWriter(out)
	for i := range s.Files {
		h := &stdtar.Header{Name: string(s.Files[i].Name), Size: int64(s.Files[i].Size), Mode: 0640, Typeflag: stdtar.TypeReg}
		switch s.Std {
		case 1:
			h.Format = stdtar.FormatPAX
		case 2:
			h.Format = stdtar.FormatGNU
		}
		if s.Dirs > 0 && i%s.Dirs == 0 {
			must(w.WriteHeader(&stdtar.Header{Name: fmt.Sprintf("%s%d/", dirName, i), Mode: 0750, Typeflag: stdtar.TypeDir}))
		}
		must(w.WriteHeader(h))
		_, err := w.Write(s.Files[i].data())
		must(err)
	}
	must(w.Close())
	if zw != nil {
		must(zw.Close())
	}
	return b.Bytes()
}

// writeOwn makes it with the package's own writer.
func (s *arcSource) writeOwn(x *X, dir string, second bool) ([]byte, error) {
	var b bytes.Buffer
	w := ownWriter(s.Format, &b)
	for i := range s.Files {
		f := &s.Files[i]
		d := f.data()
		fi, err := scratchInfo(dir, i, f, d)
		if err != nil {
			infra("%v", err)
		}
		if err := w.NextFile(string(f.Name), fi); err != nil {
			return nil, fmt.Errorf("NextFile(%q): %v", f.Name, err)
		}
		for at := 0; ; {
			e := len(d)
			if f.Chunk > 0 && at+f.Chunk < e {
				e = at + f.Chunk
			}
			if n, err := w.Write(d[at:e]); err != nil || n != e-at {
				return nil, fmt.Errorf("writing %d bytes of %q: %d, %v", e-at, f.Name, n, err)
			}
			if at = e; at >= len(d) {
				break
			}
		}
		if s.Format == "gzip" && second {
			x.Class("second file to gzip")
			if err := w.NextFile("second", fi); err == nil {
				return nil, fmt.Errorf("gzip accepts a second file")
			}
			if err := w.NextFile(string(f.Name), fi); err == nil {
				return nil, fmt.Errorf("gzip accepts a second file of the same name")
			}
		}
	}
	if err := w.Close(); err != nil {
		return nil, fmt.Errorf("Close: %v", err)
	}
	return b.Bytes(), nil
}

func scratchName(i int) string { return fmt.Sprintf("scratch%d", i) }

// scratchInfo is the FileInfo of a real file of that size.
func scratchInfo(dir string, i int, f *arcFile, d []byte) (os.FileInfo, error) {
	p := filepath.Join(dir, scratchName(i))
	os.Remove(p)
	if err := os.WriteFile(p, d, 0600); err != nil {
		return nil, err
	}
	if err := os.Chmod(p, os.FileMode(f.Mode)); err != nil {
		return nil, err
	}
	tm := fileTime(f)
	if err := os.Chtimes(p, tm, tm); err != nil {
		return nil, err
	}
	return os.Stat(p)
}

func fileTime(f *arcFile) time.Time {
	return time.Unix(1000000000+int64(f.Seed)*2345679, 0)
}

// sameMeta compares the permissions and times recorded in a tar or zip archive
// with those of the files. zip's times are checked when timed.
func sameMeta(format string, b []byte, files []arcFile, timed bool) error {
	check := func(i int, mode os.FileMode, tm time.Time) error {
		if i >= len(files) {
			return nil
		}
		if w := os.FileMode(files[i].Mode); mode != w {
			return fmt.Errorf("file %d has mode %v, expected %v", i, mode, w)
		}
		if w := fileTime(&files[i]); timed && !tm.Equal(w) {
			return fmt.Errorf("file %d has time %v, expected %v", i, tm.UTC(), w.UTC())
		}
		return nil
	}
	if format == "zip" {
		zr, err := stdzip.NewReader(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			return err
		}
		for i, f := range zr.File {
			if err := check(i, f.Mode(), f.Modified); err != nil {
				return err
			}
		}
		return nil
	}
	var in io.Reader = bytes.NewReader(b)
	if format == "tgz" {
		zr, err := stdgzip.NewReader(in)
		if err != nil {
			return err
		}
		in = zr
	}
	tr := stdtar.NewReader(in)
	for i := 0; ; i++ {
		h, err := tr.Next()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		if err := check(i, h.FileInfo().Mode(), h.ModTime); err != nil {
			return err
		}
	}
}

// recCloser records when it is closed.
type recCloser struct {
	bytes.Buffer
	id   int
	log  *[]int
	err  error
	tail int // bytes there were at Close
}

func (r *recCloser) Close() error {
	*r.log = append(*r.log, r.id)
	r.tail = r.Len()
	return r.err
}

// checkClosers: Close of a tar writer writes the archive's end, then closes
// every closer once, and reports a failure.
func checkClosers(fails []bool, f *arcFile, dir string) error {
	var log []int
	var cl []io.Closer
	var first error
	w0 := &recCloser{id: -1, log: &log}
	cs := make([]*recCloser, len(fails))
	for i, bad := range fails {
		cs[i] = &recCloser{id: i, log: &log}
		if i == 0 {
			cs[i] = w0
			cs[i].id = 0
		}
		if bad {
			cs[i].err = fmt.Errorf("closer %d failed", i)
			if first == nil {
				first = cs[i].err
			}
		}
		cl = append(cl, cs[i])
	}
	w := tar.NewWriteMultiCloser(w0, cl...)
	d := f.data()
	fi, err := scratchInfo(dir, 0, f, d)
	if err != nil {
		infra("%v", err)
	}
	if err := w.NextFile("f", fi); err != nil {
		return fmt.Errorf("NextFile: %v", err)
	}
	if _, err := w.Write(d); err != nil {
		return fmt.Errorf("Write: %v", err)
	}
	err = w.Close()
	if (err == nil) != (first == nil) {
		return fmt.Errorf("Close of a tar writer whose closers fail as %v returned %v", fails, err)
	}
	seen := map[int]int{}
	for _, id := range log {
		seen[id]++
	}
	for i := range fails {
		if seen[i] != 1 {
			return fmt.Errorf("Close of a tar writer with closers failing as %v closed number %d %d times", fails, i, seen[i])
		}
	}
	got, err := readStd("tar", w0.Bytes()[:w0.tail], "")
	if err == nil {
		err = sameEntries(got, []entry{{"f", d}}, nil)
	}
	if err != nil {
		return fmt.Errorf("what was written when the first closer was closed: %v", err)
	}
	return nil
}

func sameEntries(got, want []entry, how []arcFile) error {
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("file %d (%q) is missing", i, want[i].name)
		}
		if got[i].name != want[i].name {
			return fmt.Errorf("file %d is named %q, expected %q", i, got[i].name, want[i].name)
		}
		w := want[i].data
		if i < len(how) {
			switch how[i].Read {
			case 1:
				w = w[:len(w)/2]
			case 2:
				w = nil
			}
		}
		if !bytes.Equal(got[i].data, w) {
			return fmt.Errorf("file %d (%q): %s", i, want[i].name, diffBytes(got[i].data, w))
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("a file %q too many", got[len(want)].name)
	}
	return nil
}

func diffBytes(g, w []byte) string {
	for i := 0; i < len(g) && i < len(w); i++ {
		if g[i] != w[i] {
			return fmt.Sprintf("contents differ from byte %d on (%d bytes, expected %d)", i, len(g), len(w))
		}
	}
	return fmt.Sprintf("%d bytes, expected %d", len(g), len(w))
}

func checkArc(x *X, c *arcCase) error {
	base := filepath.Dir(x.NewDir())
	tmp := filepath.Join(base, "tmp")
	if err := os.Mkdir(tmp, 0755); err != nil {
		infra("%v", err)
	}
	if c.Foreign {
		// someone else's file
		if err := os.WriteFile(filepath.Join(tmp, "archive_copy_buffer"), []byte("not yours"), 0600); err != nil {
			infra("%v", err)
		}
	}
	os.Setenv("TMPDIR", tmp)
	total := 0
	multi := false
	for i := range c.Src {
		x.Class("%s to %s", c.Src[i].Format, c.Dst)
		for j := range c.Src[i].Files {
			total += c.Src[i].Files[j].Size
		}
		multi = multi || len(c.Src[i].Files) > 1
		if c.Src[i].Std > 0 {
			x.Class("archive of the standard library")
		}
	}
	if len(c.Src) > 1 {
		x.Class("several copies into one writer")
	}
	x.NonTrivial(total > 0 && (multi || len(c.Damage) > 0 || c.SrcFail > 0 || c.DstFail > 0 || len(c.Src) > 1 || c.Src[0].Format != c.Dst))
	return inProcess(func() error { return checkArc1(x, c, base, tmp) })
}

func checkArc1(x *X, c *arcCase, base, tmp string) error {
	leftovers := func(after string) error {
		ents, err := os.ReadDir(tmp)
		if err != nil {
			infra("%v", err)
		}
		var l []string
		for _, e := range ents {
			if e.Name() == "archive_copy_buffer" && c.Foreign {
				if b, err := os.ReadFile(filepath.Join(tmp, e.Name())); err == nil && string(b) == "not yours" {
					continue
				}
			}
			l = append(l, e.Name())
		}
		if n := len(ents); c.Foreign && n == 0 {
			return fmt.Errorf("%s: a file of someone else in the temporary directory is gone", after)
		}
		if len(l) > 0 {
			sort.Strings(l)
			return fmt.Errorf("%s: left in the temporary directory: %v", after, l)
		}
		return nil
	}
	arc := make([][]byte, len(c.Src))
	lastName := func(i int) string {
		if f := c.Src[i].Files; len(f) > 0 {
			return c.Src[i].name(0)
		}
		return "none"
	}
	// write and read back
	for i := range c.Src {
		s := &c.Src[i]
		what := fmt.Sprintf("source %d (%s)", i, s.Format)
		var err error
		if s.Std > 0 {
			if s.Dirs > 0 {
				x.Class("directories in the archive, %s to %s", s.Format, c.Dst)
				if err := c.checkDirs(s); err != nil {
					return fmt.Errorf("%s with directories in it, to %s: %v", what, c.Dst, err)
				}
				if err := leftovers("after copying an archive with directories"); err != nil {
					return err
				}
			}
			flat := *s
			flat.Dirs = 0
			arc[i] = flat.writeStd()
		} else {
			if arc[i], err = s.writeOwn(x, base, c.Second); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			got, err := readStd(s.Format, arc[i], lastName(i))
			if err == nil {
				err = sameEntries(got, s.want(), nil)
			}
			if err != nil {
				return fmt.Errorf("%s: read by the standard library: %v", what, err)
			}
			if s.Format != "gzip" {
				if err := sameMeta(s.Format, arc[i], s.Files, true); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
			}
		}
		got, err := readOwn(s.Format, &stream{b: arc[i], pieces: s.Pieces, fail: -1}, lastName(i), s.Files)
		if err == nil {
			err = sameEntries(got, s.want(), s.Files)
		}
		if err != nil {
			return fmt.Errorf("%s: read back: %v", what, err)
		}
		if err := leftovers("after writing and reading"); err != nil {
			return err
		}
	}
	if len(c.Closers) > 0 {
		f := arcFile{Size: 300, Seed: 3}
		for i := range c.Src {
			if len(c.Src[i].Files) > 0 {
				f = c.Src[i].Files[0]
			}
		}
		if err := checkClosers(c.Closers, &f, base); err != nil {
			return err
		}
	}
	// copy. all tells whether everything arrived by the calls' own account.
	copyTo := func(srcs [][]byte, srcFail, dstFail int) (out []byte, faulted bool, err error) {
		dst := &sink{fail: dstFail}
		w := ownWriter(c.Dst, dst)
		var aw archive.Writer = w
		if c.WrapDst {
			aw = hidden{w}
		}
		for i := range srcs {
			s := &c.Src[i]
			st := &stream{b: srcs[i], pieces: s.Pieces, fail: -1}
			if srcFail > 0 && i == 0 {
				st.fail = len(srcs[i]) * srcFail / 1000
			}
			var r archive.ReadCloser
			if r, err = ownReader(s.Format, st, lastName(i)); err != nil {
				faulted = faulted || st.err
				break
			}
			var ar archive.Reader = r
			if s.Wrap {
				ar = archive.NopCloser(r)
			}
			err = archive.Copy(aw, ar)
			r.Close()
			faulted = faulted || st.err
			if err != nil {
				err = fmt.Errorf("Copy of source %d: %w", i, err)
				break
			}
		}
		if cerr := w.Close(); cerr != nil && err == nil {
			err = fmt.Errorf("Close: %w", cerr)
		}
		return dst.Bytes(), faulted || dst.err, err
	}
	var want []entry
	for i := range c.Src {
		want = append(want, c.Src[i].want()...)
	}
	dstName := "d"
	if len(want) > 0 {
		dstName = want[0].name
	}
	complete := func(out []byte, want []entry, names bool) error {
		if c.Dst == "gzip" && len(want) == 0 {
			return nil
		}
		for _, own := range []bool{false, true} {
			var got []entry
			var err error
			who := "the standard library"
			if own {
				who = "the own reader"
				got, err = readOwn(c.Dst, &stream{b: out, fail: -1}, dstName, nil)
			} else {
				got, err = readStd(c.Dst, out, dstName)
			}
			if !names {
				for i := range got {
					if i < len(want) {
						got[i].name = want[i].name
					}
				}
			}
			if err == nil {
				err = sameEntries(got, want, nil)
			}
			if err != nil {
				return fmt.Errorf("copy to %s, read by %s: %v", c.Dst, who, err)
			}
		}
		return nil
	}
	verify := func() error {
		out, _, err := copyTo(arc, 0, 0)
		if c.Dst == "gzip" && len(want) > 1 {
			x.Class("several files refused by gzip")
			if err == nil {
				return fmt.Errorf("%d files copied to gzip without an error", len(want))
			}
			if err := complete(out, want[:1], true); err != nil {
				return fmt.Errorf("after a second file was refused: %v", err)
			}
			return nil
		}
		if err != nil {
			return err
		}
		return complete(out, want, true)
	}
	if c.Conc > 1 {
		x.Class("copies at the same time")
		errs := make([]error, c.Conc)
		var wg sync.WaitGroup
		for g := range errs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				errs[g] = inProcess(verify0(c, copyTo, complete, arc, want))
			}(g)
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return fmt.Errorf("with %d copies at the same time: %v", c.Conc, e)
			}
		}
	}
	if err := verify(); err != nil {
		return err
	}
	if err := leftovers("after Copy"); err != nil {
		return err
	}
	// failing streams: an error, or all is there
	if c.SrcFail > 0 || c.DstFail > 0 {
		out, faulted, err := copyTo(arc, c.SrcFail, c.DstFail)
		if faulted {
			x.Class("failing stream: %v", map[bool]string{true: "error", false: "none needed"}[err != nil])
		}
		if err == nil && !(c.Dst == "gzip" && len(want) > 1) {
			if err := complete(out, want, true); err != nil {
				return fmt.Errorf("streams failing (source after %d/1000, destination after %d bytes), no error: %v", c.SrcFail, c.DstFail, err)
			}
		}
		if err := leftovers("after a Copy with a failing stream"); err != nil {
			return err
		}
	}
	// damage
	if len(c.Damage) == 0 {
		return nil
	}
	s := &c.Src[0]
	if s.Format != "zip" && s.Format != "gzip" {
		return nil
	}
	bad := applyDamage(arc[0], c.Damage)
	if bytes.Equal(bad, arc[0]) {
		return nil
	}
	orig := s.want()
	judge := func(got []entry) error {
		w := append([]entry(nil), orig...)
		for i := range w {
			if i < len(got) {
				w[i].name = got[i].name
			}
		}
		return sameEntries(got, w, nil)
	}
	std, stdErr := readStd(s.Format, bad, lastName(0))
	deceived := stdErr == nil && judge(std) != nil
	if deceived {
		x.Class("damage the standard library does not notice")
	}
	got, err := readOwn(s.Format, &stream{b: bad, pieces: s.Pieces, fail: -1}, lastName(0), nil)
	x.Class("damaged %s: %s", s.Format, map[bool]string{true: "error", false: "read"}[err != nil])
	if err == nil && !deceived {
		if err := judge(got); err != nil {
			return fmt.Errorf("damaged %s archive read without an error: %v", s.Format, err)
		}
	}
	out, _, err := copyTo([][]byte{bad}, 0, 0)
	if err == nil && !deceived && !(c.Dst == "gzip" && len(orig) > 1) {
		if c.Dst == "gzip" && len(orig) > 0 {
			orig[0].name = dstName
		}
		if err := complete(out, orig, false); err != nil {
			return fmt.Errorf("damaged %s archive copied to %s without an error: %v", s.Format, c.Dst, err)
		}
	}
	return leftovers("after Copy of a damaged archive")
}

// verify0 is one of several copies at the same time; it counts no classes.
func verify0(c *arcCase, copyTo func([][]byte, int, int) ([]byte, bool, error), complete func([]byte, []entry, bool) error, arc [][]byte, want []entry) func() error {
	return func() error {
		out, _, err := copyTo(arc, 0, 0)
		if c.Dst == "gzip" && len(want) > 1 {
			if err == nil {
				return fmt.Errorf("%d files copied to gzip without an error", len(want))
			}
			return nil
		}
		if err != nil {
			return err
		}
		return complete(out, want, true)
	}
}

func applyDamage(b []byte, ds []damage) []byte {
	b = append([]byte(nil), b...)
	for _, d := range ds {
		at := len(b)*d.At/1000 + d.Off
		if at < 0 {
			at = 0
		}
		if at > len(b) {
			at = len(b)
		}
		e := at + d.N
		if e > len(b) {
			e = len(b)
		}
		switch d.Kind {
		case "trunc":
			b = b[:at]
		case "flip":
			if at < len(b) {
				b[at] ^= 1 << (d.Val % 8)
			}
		case "set":
			for i := at; i < e; i++ {
				b[i] = byte(d.Val)
			}
		case "zero":
			for i := at; i < e; i++ {
				b[i] = 0
			}
		case "del":
			b = append(b[:at:at], b[e:]...)
		case "ins":
			b = append(b[:at:at], append(bytes.Repeat([]byte{byte(d.Val)}, d.N), b[at:]...)...)
		}
	}
	return b
}

func init() {
	add(Prop{ID: "C21", InProc: true, Rule: "one to three archives of up to four files (names of all shapes, contents up to some MB, written in pieces) by the package's writers or the standard library's, " +
		"read back fully, partly or in pieces, copied one after another into one writer of every format, also several times at once, also with failing streams; zip and gzip archives with up to three truncations, " +
		"flips, overwritten, deleted or inserted bytes are read and copied. Non-trivial: some contents, and several files, different formats, damage or a failing stream."},
		genArc, checkArc, func() (r []arcCase) {
			// every pair of formats; every truncation and many flips of small archives
			f := arcFile{Name: []byte("app.log"), Size: 60, Kind: 3, Seed: 5}
			g := arcFile{Name: []byte("dir/é.log"), Size: 700, Kind: 1, Seed: 6}
			for _, a := range formats {
				for _, b := range formats {
					fs := []arcFile{f, g}
					if a == "gzip" {
						fs = fs[:1]
					}
					r = append(r, arcCase{Src: []arcSource{{Format: a, Files: fs}}, Dst: b, Second: true})
					r = append(r, arcCase{Src: []arcSource{{Format: a, Files: fs[:1]}, {Format: a, Files: fs[:1]}}, Dst: b})
				}
			}
			for _, a := range []string{"gzip", "zip"} {
				s := arcSource{Format: a, Files: []arcFile{f}}
				for at := 0; at <= 1000; at += 3 {
					r = append(r, arcCase{Src: []arcSource{s}, Dst: "tar", Damage: []damage{{Kind: "trunc", At: at}}})
					r = append(r, arcCase{Src: []arcSource{s}, Dst: a, Damage: []damage{{Kind: "flip", At: at, Val: at}}})
				}
			}
			return
		})
}
