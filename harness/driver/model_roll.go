package driver

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/verif/wire"
)

// backup of a rolling output.
type backup struct {
	label   string
	content string
}

// rollOut is the reference model of one rolling output.
type rollOut struct {
	d       map[string]string
	dir     string
	base    string
	mode    string
	timed   bool
	size    int64
	max     int
	ext     string // of archives, "" if none
	pattern string
	loc     *time.Location

	cur     string
	exists  bool
	all     []backup // in the order they were made, those found first
	kept    []backup // that retention leaves, oldest first
	retired []backup
	blocked bool // archiving cannot work
	unsure  bool // a label went back while retention was at work: no say in what is removed

	started bool
	label   string
	prev    string // the label before the output was made anew in the same process
}

// set takes over other settings.
func (o *rollOut) set(d map[string]string) {
	q := newRollOut(d, o.loc)
	o.d, o.max, o.size, o.ext = d, q.max, q.size, q.ext
}

// again: the output is made anew in the same process.
func (o *rollOut) again(d map[string]string) {
	o.set(d)
	if o.started {
		o.started, o.prev, o.label = false, o.label, ""
	}
}

func archiveExt(d map[string]string) string {
	switch d["archive"] {
	case "zip":
		return ".zip"
	case "gzip":
		return ".gz"
	}
	return ""
}

func maxBackups(d map[string]string) int {
	n, _ := strconv.Atoi(d["backups"])
	if n <= 0 {
		return 5
	}
	if n > 20 {
		return 20
	}
	return n
}

// sizeOf is the limit in bytes. What is no positive number means 10 MB, or 1 GB.
func sizeOf(s string) int64 {
	mul, def := int64(1), int64(10<<20)
	for u, m := range map[string]int64{"K": 1 << 10, "M": 1 << 20, "G": 1 << 30} {
		if strings.HasSuffix(s, u) {
			s, mul = strings.TrimSuffix(s, u), m
			if u == "G" {
				def = 1 << 30
			}
		}
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil && !errors.Is(err, strconv.ErrRange) || n <= 0 {
		return def
	}
	if n > 1<<31-1 && mul > 1 {
		n = 1<<31 - 1 // none of these is ever reached
	}
	return n * mul
}

func newRollOut(d map[string]string, loc *time.Location) *rollOut {
	o := &rollOut{d: d, mode: d["name_mode"], timed: d["type"] == "time_rolling_file", max: maxBackups(d), ext: archiveExt(d), pattern: d["pattern"], loc: loc}
	o.dir, o.base = filepath.Split(d["file"])
	o.dir = filepath.Clean(o.dir)
	if !o.timed {
		o.size = sizeOf(d["size"])
	}
	return o
}

func (o *rollOut) name(label string) string {
	if o.mode == "prefix" {
		return label + "." + o.base
	}
	return o.base + "." + label
}

func (o *rollOut) path(label string) string { return filepath.Join(o.dir, o.name(label)) }
func (o *rollOut) arch(label string) string { return o.path(label) + o.ext }
func (o *rollOut) curPath() string          { return filepath.Join(o.dir, o.base) }

// valid labels of backups
func (o *rollOut) valid(label string) bool {
	if label == "" {
		return false
	}
	if o.timed {
		_, err := time.ParseInLocation(o.pattern, label, o.loc)
		return err == nil
	}
	_, err := strconv.Atoi(label)
	return err == nil
}

// key orders labels.
func (o *rollOut) key(label string) int64 {
	if o.timed {
		t, _ := time.ParseInLocation(o.pattern, label, o.loc)
		return t.UnixNano()
	}
	n, _ := strconv.Atoi(label)
	return int64(n)
}

// labelOfPath is the label if the path is that of a backup.
func (o *rollOut) labelOfPath(p string) (string, bool) {
	if filepath.Dir(p) != o.dir {
		return "", false
	}
	l, ok := labelOf(filepath.Base(p), o.base, o.mode)
	return l, ok && o.valid(l)
}

// found takes over what exists before a process starts.
func (o *rollOut) found(tree Tree) {
	o.kept, o.all, o.retired = nil, nil, nil
	o.started, o.label, o.prev = false, "", ""
	i, ok := tree[o.curPath()]
	o.cur, o.exists = string(i.Data), ok
	for p, i := range tree {
		if i.Kind != "f" {
			continue
		}
		if l, ok := o.labelOfPath(p); ok {
			o.kept = append(o.kept, backup{l, string(i.Data)})
		}
		if o.ext != "" && strings.HasSuffix(p, o.ext) {
			if l, ok := o.labelOfPath(strings.TrimSuffix(p, o.ext)); ok {
				if c, err := unpack(o.ext, i.Data); err == nil {
					o.retired = append(o.retired, backup{l, c})
				}
			}
		}
	}
	o.sort(o.kept)
	o.sort(o.retired)
	o.all = append(append([]backup(nil), o.retired...), o.kept...)
}

func (o *rollOut) sort(l []backup) {
	sort.SliceStable(l, func(i, j int) bool { return o.key(l[i].label) < o.key(l[j].label) })
}

func has(l []backup, label string) bool {
	for _, b := range l {
		if b.label == label {
			return true
		}
	}
	return false
}

// next number of a size rolling output
func (o *rollOut) next() string {
	max := int64(0)
	for _, b := range o.kept {
		if k := o.key(b.label); k > max {
			max = k
		}
	}
	for _, b := range o.retired {
		if k := o.key(b.label); k > max {
			max = k
		}
	}
	return fmt.Sprint(max + 1)
}

// write is what a message does at a time; may is asked whether the first
// message after a start found the file too large and rolled it, which it may.
// It tells whether there was a roll.
func (o *rollOut) write(text string, at time.Time, may func(label string) bool) (rolled bool) {
	roll := false
	label := o.next()
	if o.timed {
		now := at.In(o.loc).Format(o.pattern)
		roll = o.started && now != o.label
		label, o.label = o.label, now
		if !o.started && o.prev != "" && now != o.prev {
			label = o.prev
			roll = !has(o.kept, label) && may(label)
		}
	} else if o.started {
		roll = int64(len(o.cur)) >= o.size
	} else if int64(len(o.cur)) >= o.size {
		roll = may(label)
	}
	o.started = true
	if roll && !has(o.kept, label) && !has(o.retired, label) {
		rolled = true
		b := backup{label, o.cur}
		o.cur = ""
		newest := true
		for _, k := range o.kept {
			newest = newest && o.key(k.label) < o.key(label)
		}
		o.all = append(o.all, b)
		o.kept = append(o.kept, b)
		if len(o.kept) > o.max {
			if !newest {
				o.unsure = true
			}
			o.sort(o.kept)
			if o.ext == "" || !o.blocked {
				n := len(o.kept) - o.max
				o.retired = append(o.retired, o.kept[:n]...)
				o.kept = append([]backup(nil), o.kept[n:]...)
			}
		} else {
			o.sort(o.kept)
		}
	}
	o.cur += text
	o.exists = true
	return
}

// unpack the only file of an archive.
func unpack(ext string, data []byte) (string, error) {
	if ext == ".zip" {
		z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
		if err != nil {
			return "", err
		}
		if len(z.File) != 1 {
			return "", fmt.Errorf("%d files in the archive", len(z.File))
		}
		f, err := z.File[0].Open()
		if err != nil {
			return "", err
		}
		b, err := io.ReadAll(f)
		return string(b), err
	}
	g, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return "", err
	}
	b, err := io.ReadAll(g)
	return string(b), err
}

// zipped is the name of the file in a zip archive.
func zipped(ext string, data []byte) string {
	if ext == ".zip" {
		if z, err := zip.NewReader(bytes.NewReader(data), int64(len(data))); err == nil && len(z.File) == 1 {
			return z.File[0].Name
		}
	}
	return ""
}

// seen is a listing by path.
type seen map[string]wire.Info

func seenOf(l []wire.Info) seen {
	s := seen{}
	for _, i := range l {
		s[i.Path] = i
	}
	return s
}

// backups of an output in a listing, oldest first.
func (o *rollOut) backups(s seen) (labels []string) {
	for p, i := range s {
		if l, ok := o.labelOfPath(p); ok && i.Kind == "f" {
			labels = append(labels, l)
		}
	}
	sort.Slice(labels, func(i, j int) bool { return o.key(labels[i]) < o.key(labels[j]) })
	return
}

func sum(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }

// is compares a listed file with a content.
func (s seen) is(path, content string) error {
	i, ok := s[path]
	switch {
	case !ok:
		return fmt.Errorf("%s does not exist, it should have %d bytes: %q", path, len(content), cut(content, 120))
	case i.Kind != "f":
		return fmt.Errorf("%s is no file", path)
	case i.Size != int64(len(content)):
		return fmt.Errorf("%s has %d bytes, not %d: %q", path, i.Size, len(content), cut(content, 120))
	case i.Sum != sum(content):
		return fmt.Errorf("%s does not contain what it should: %q", path, cut(content, 120))
	}
	return nil
}

// mine tells whether a path belongs to the output: current file, backups,
// archives of backups and the directory for temporary files.
func (o *rollOut) mine(p string, i wire.Info) bool {
	if p == o.curPath() || strings.Contains(p, "/.log4g_tmp") {
		return true
	}
	if i.Kind != "f" {
		return false
	}
	if _, ok := o.labelOfPath(p); ok {
		return true
	}
	if o.ext != "" && strings.HasSuffix(p, o.ext) {
		_, ok := o.labelOfPath(strings.TrimSuffix(p, o.ext))
		return ok
	}
	return false
}
