package driver

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C23: what the settings of a rolling output do.

type setCase struct {
	Form  string // go, yaml (bare scalars), yamlq (quoted ones), json, file (bare YAML in a file)
	Umask int
	Start int64
	Outs  []map[string]string // file may contain {DIR}
	Files []wire.File
	Ops   []wire.Op // log and sleep
}

// perm is the mode a setting means, -1: unusable.
func perm(s string) int {
	if len(s) < 2 || s[0] != '0' {
		return -1
	}
	v, err := strconv.ParseInt(strings.TrimPrefix(s[1:], "o"), 8, 32)
	if err != nil || v <= 0 || v > 0777 {
		return -1
	}
	return int(v)
}

func permOr(s string, def int) int {
	if p := perm(s); p >= 0 {
		return p
	}
	return def
}

func genPerm(t *rapid.T, owner int) string {
	switch flat(t, 0, 9) {
	case 0, 1:
		return ""
	case 2, 3:
		return pick(t, "abc", "-0640", "0", "00", "0888", "07777", "01000", "rw-r--r--", "0640x", "99999999999", "010000000640", "-1", "0x", "u=rw")
	}
	return fmt.Sprintf(pick(t, "0%o", "0%o", "0%o", "0%o", "0o%o"), owner|pick(t, flat(t, 1, 0777), 0640, 0600, 0644, 0660, 0666, 0750, 0755, 0770, 0777, 0444, 0440, 0550, 0004, 0020))
}

func genSet(t *rapid.T) setCase {
	k := setCase{Form: pick(t, "go", "yaml", "yamlq", "json", "file"), Umask: pick(t, 0, 0, 022, 027, 077, 002, 007, 055, 033), Start: 1600000000 + int64(flat(t, 0, 100000000))}
	no := 1
	if chance(t, 25) {
		no = 2
	}
	for i := 0; i < no; i++ {
		d := map[string]string{"name": fmt.Sprintf("o%d", i), "type": "size_rolling_file", "format": "f0"}
		if chance(t, 30) {
			d["type"] = "time_rolling_file"
			d["pattern"] = pick(t, "2006-01-02T15-04-05", "20060102150405", "02.01.2006 15h04m05", "2006-01-02T15-04")
		}
		top := fmt.Sprintf("d%d", i)
		base := pick(t, "app.log", "x", "é.log", "a b.log", "rf.log", "app.2.log", ".log")
		var dir string
		switch flat(t, 0, 7) {
		case 0, 1:
			dir = top + "/"
		case 2:
			dir = top + "/" + strings.Repeat("s/", flat(t, 1, 12))
		case 3:
			dir = "./" + top + "/x/"
		case 4:
			dir = top + "//y/./"
		case 5:
			dir = "{DIR}/" + top + "/" + pick(t, "", "abs/", "a b/ü/")
		case 6:
			dir = top + "/" + pick(t, "a.b/", "sub dir/", "日志/", "2/")
		default:
			if i == 0 {
				dir = pick(t, "", "./", "{DIR}/")
			} else {
				dir = top + "/"
			}
		}
		d["file"] = dir + base
		if m := pick(t, "", "", "postfix", "prefix"); m != "" {
			d["name_mode"] = m
		}
		d["dir_perm"], d["file_perm"], d["back_perm"] = genPerm(t, 0700), genPerm(t, 0), genPerm(t, 0)
		for _, key := range []string{"dir_perm", "file_perm", "back_perm"} {
			if d[key] == "" {
				delete(d, key)
			}
		}
		backups := flat(t, 1, 20)
		if chance(t, 60) {
			backups = flat(t, 1, 4)
		}
		d["backups"] = fmt.Sprint(backups)
		if chance(t, 12) {
			d["backups"] = pick(t, "", "0", "-1", "-20", "five", "5.5", "5 ", " 5", "0x5", "1e1", "21", "25", "100", "99999999999999999999", "+3", "007", "٣")
			backups = maxBackups(d)
			if d["backups"] == "" {
				delete(d, "backups")
			}
		}
		if chance(t, 8) {
			d["name_mode"] = pick(t, "", "Prefix", "PREFIX", "suffix", "pre", "none", " prefix")
		}
		if chance(t, 8) {
			d["archive"] = pick(t, "", "none", "tar", "GZIP", "Zip", "gz", "false")
		} else if chance(t, 15) {
			d["archive"] = pick(t, "zip", "gzip")
			if d["back_perm"] != "" {
				// who cannot read them does not archive them
				d["back_perm"] = genPerm(t, 0400)
			}
			if d["back_perm"] == "" {
				delete(d, "back_perm")
			}
			if backups > 4 && chance(t, 70) {
				backups = flat(t, 1, 3)
				d["backups"] = fmt.Sprint(backups)
			}
		}
		if chance(t, 10) {
			d["async"] = "true"
		}
		clean := filepath.Clean(strings.TrimPrefix(d["file"], "{DIR}/"))
		prior := int64(-1)
		if d["type"] == "size_rolling_file" {
			unit := pick(t, "", "", "K", "K", "M", "G")
			switch {
			case unit == "" && chance(t, 60):
				d["size"] = fmt.Sprint(flat(t, 1, 300))
			case unit == "":
				d["size"] = fmt.Sprint(pick(t, 1000, 1023, 1024, 1025, 65536, 1000000, 1048576, 16777216, 2147483647, 2147483648, 4294967296, 4294967297, 9999999999, flat(t, 1000, 100000000)))
			case unit == "K":
				d["size"] = fmt.Sprint(pick(t, 1, 1, 2, flat(t, 1, 100), flat(t, 100, 5000), 1048576, 4194304, 2000000)) + unit
			case unit == "M":
				d["size"] = fmt.Sprint(pick(t, 1, 1, 2, flat(t, 1, 100), 1023, 1024, 2048, 4096, 5000)) + unit
			default:
				d["size"] = fmt.Sprint(pick(t, 1, 1, 2, 3, 4, 5, 8, flat(t, 1, 30))) + unit
			}
			if chance(t, 15) {
				d["size"] = pick(t, "", "0", "-1", "-100", "big", "1.5", "1.5M", "10MB", "1k", "1m", "1 M", " 100", "100 ", "1e3", "0x40", "K", "M", "G", "-3K", "0K", "0M", "-1M", "0G", "-1G", "xG", "1_000", "MK", "+50", "0100", "99999999999999999999", "-99999999999999999999", "１K")
			}
			if s := sizeOf(d["size"]); s > 2000 {
				prior = s - int64(pick(t, 1, 1, 2, 20, flat(t, 1, 200)))
			} else if s > 2 && chance(t, 30) {
				prior = int64(flat(t, 1, int(s)-1))
			}
			if prior > 64<<30 {
				prior = -1
			}
			if d["size"] == "" && chance(t, 50) {
				delete(d, "size")
			}
		} else if chance(t, 20) {
			prior = int64(flat(t, 1, 100))
		}
		if prior >= 0 {
			if prior > 1<<20 && archiveExt(d) != "" {
				delete(d, "archive")
			}
			f := wire.File{Path: clean, Sparse: prior, Mode: pick(t, 0644, 0600, 0660)}
			k.Files = append(k.Files, f)
		}
		// backups that are there already
		if chance(t, 30) {
			o := newRollOut(map[string]string{"file": clean, "type": d["type"], "name_mode": d["name_mode"], "pattern": d["pattern"], "size": "1", "backups": d["backups"]}, time.UTC)
			for j := flat(t, 0, backups); j > 0; j-- {
				l := fmt.Sprint(j)
				if o.timed {
					l = time.Unix(k.Start-3600*int64(j), 0).UTC().Format(o.pattern)
				}
				k.Files = append(k.Files, wire.File{Path: o.path(l), Content: []byte("old"), Mode: pick(t, 0500, 0644, 0400)})
			}
		} else if prior < 0 && chance(t, 20) && filepath.Dir(clean) != "." {
			k.Files = append(k.Files, wire.File{Path: strings.Split(clean, "/")[0], Dir: true, Mode: pick(t, 0700, 0755)})
		}
		k.Outs = append(k.Outs, d)
	}
	nm := flat(t, 2, 12)
	if chance(t, 20) {
		nm = flat(t, 20, 60)
	}
	for i := 0; i < nm; i++ {
		if hasTimed(k.Outs) && chance(t, 60) {
			k.Ops = append(k.Ops, wire.Op{K: "sleep", D: int64(pick(t, 1, 1, 2, 61)) * int64(time.Second)})
		}
		k.Ops = append(k.Ops, wire.Op{K: "log", L: flat(t, 0, no-1), M: "Info", Msg: &wire.Msg{I: i, Len: pick(t, 0, 0, 30, 100, flat(t, 1, 300))}})
	}
	if len(k.Files) > 0 {
		// no file twice, no file that has to be a directory
		seen := map[string]bool{}
		var fs []wire.File
		for _, f := range k.Files {
			if !seen[f.Path] {
				seen[f.Path] = true
				fs = append(fs, f)
			}
		}
		k.Files = fs
	}
	return k
}

func quoteJSON(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		infra("%v", err)
	}
	return string(b)
}

// plainYAML tells whether a text stands for itself in YAML.
func plainYAML(s string) bool {
	for i, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && strings.ContainsRune("-./_=", c)) {
			return false
		}
	}
	return s != ""
}

func (k *setCase) document(cf *wire.Cfg) []byte {
	var b strings.Builder
	scalar := func(s string) string {
		if k.Form == "yamlq" || !plainYAML(s) {
			return quoteJSON(s)
		}
		return s
	}
	list := func(what string, l []map[string]string) {
		fmt.Fprintf(&b, "%s:\n", what)
		for _, m := range l {
			var keys []string
			for n := range m {
				keys = append(keys, n)
			}
			sort.Strings(keys)
			for i, n := range keys {
				lead := "    "
				if i == 0 {
					lead = "  - "
				}
				fmt.Fprintf(&b, "%s%s: %s\n", lead, n, scalar(m[n]))
			}
		}
	}
	list("formats", cf.Formats)
	list("outputs", cf.Outputs)
	b.WriteString("loggers:\n")
	for _, l := range cf.Loggers {
		fmt.Fprintf(&b, "  - name: %s\n    level: %s\n    outputs: [%s]\n", l.Name, l.Level, strings.Join(l.Outs, ", "))
	}
	return []byte(b.String())
}

func (k *setCase) make(dir string) *wire.Case {
	c := &wire.Case{TZ: "UTC", Umask: k.Umask, Snap: "."}
	if hasTimed(k.Outs) {
		c.Bubble, c.Start = true, k.Start
	}
	cf := &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": "%{msg}"}}}
	for i, d := range k.Outs {
		m := map[string]string{}
		for n, v := range d {
			m[n] = strings.Replace(v, "{DIR}", dir, 1)
		}
		cf.Outputs = append(cf.Outputs, m)
		cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: fmt.Sprintf("l%d", i), Level: "all", Outs: []string{d["name"]}})
	}
	switch k.Form {
	case "go":
		c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
	case "json":
		type logger struct {
			Name    string   `json:"name"`
			Level   string   `json:"level"`
			Outputs []string `json:"outputs"`
		}
		var l []logger
		for _, g := range cf.Loggers {
			l = append(l, logger{g.Name, g.Level, g.Outs})
		}
		b, err := json.Marshal(map[string]interface{}{"formats": cf.Formats, "outputs": cf.Outputs, "loggers": l})
		if err != nil {
			infra("%v", err)
		}
		c.Ops = append(c.Ops, wire.Op{K: "loadcfg", Data: b, Ext: "json"})
	case "file":
		c.Files = append(c.Files, wire.File{Path: "cfg.yaml", Content: k.document(cf), Mode: 0644})
		c.Ops = append(c.Ops, wire.Op{K: "loadfile", Name: "cfg.yaml"})
	default:
		c.Ops = append(c.Ops, wire.Op{K: "loadcfg", Data: k.document(cf), Ext: "yaml"})
	}
	for i := range cf.Loggers {
		c.Ops = append(c.Ops, wire.Op{K: "get", L: i, Name: cf.Loggers[i].Name})
	}
	c.Ops = append(c.Ops, wire.Op{K: "ls", Name: "."})
	c.Ops = append(c.Ops, k.Ops...)
	c.Ops = append(c.Ops, wire.Op{K: "close"})
	return c
}

// setOut is the reference of one output: sizes and modes only.
type setOut struct {
	*rollOut
	dirPerm, filePerm, backPerm int
	size                        int64 // of the current file, -1: none
	mode                        int
	back                        map[string][2]int64 // label: size and mode
	arched                      map[string]bool
}

func (o *setOut) log(n int64, now time.Time, umask int) (rolled bool) {
	roll := false
	label := ""
	if o.timed {
		p := now.UTC().Format(o.pattern)
		roll = o.started && p != o.label
		label, o.label = o.label, p
	} else {
		roll = o.size >= o.limit()
		max := int64(0)
		for l := range o.back {
			if o.key(l) > max {
				max = o.key(l)
			}
		}
		label = fmt.Sprint(max + 1)
	}
	o.started = true
	if roll {
		o.back[label] = [2]int64{o.size, int64(o.backPerm)}
		for len(o.back) > o.max {
			first := true
			oldest := ""
			for l := range o.back {
				if first || o.key(l) < o.key(oldest) {
					oldest, first = l, false
				}
			}
			delete(o.back, oldest)
			if o.ext != "" {
				o.arched[oldest] = true
			}
		}
		o.size = -1
	}
	if o.size < 0 {
		o.size, o.mode = 0, o.filePerm&^umask
	}
	o.size += n
	return roll
}

func (o *setOut) limit() int64 { return sizeOf(o.d["size"]) }

func checkSet(x *X, k *setCase) error {
	dir := x.NewDir()
	c := k.make(dir)
	c.Files = append(c.Files, k.Files...)
	Put(dir, c.Files, false)
	c.Files = nil
	prior := map[string]wire.Info{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			infra("%v", err)
		}
		rel, _ := filepath.Rel(dir, p)
		kind := "f"
		if fi.IsDir() {
			kind = "d"
		}
		prior[rel] = wire.Info{Path: rel, Mode: int(fi.Mode().Perm()), Size: fi.Size(), Kind: kind}
		return nil
	})
	var outs []*setOut
	for _, d := range k.Outs {
		m := map[string]string{}
		for n, v := range d {
			m[n] = v
		}
		m["file"] = filepath.Clean(strings.TrimPrefix(d["file"], "{DIR}/"))
		o := &setOut{rollOut: newRollOut(m, time.UTC), dirPerm: permOr(d["dir_perm"], 0760), filePerm: permOr(d["file_perm"], 0600), backPerm: permOr(d["back_perm"], 0500), size: -1, back: map[string][2]int64{}, arched: map[string]bool{}}
		if i, ok := prior[o.curPath()]; ok {
			o.size, o.mode = i.Size, i.Mode
		}
		for p, i := range prior {
			if l, ok := o.labelOfPath(p); ok && i.Kind == "f" {
				o.back[l] = [2]int64{i.Size, int64(i.Mode)}
			}
		}
		outs = append(outs, o)
	}
	r := x.RunIn("plain", c, dir)
	if err := r.Crash(); err != nil {
		return err
	}
	rolls := 0
	used := map[int]bool{}
	for _, d := range k.Outs {
		for key, usual := range map[string]func(string) bool{
			"size": func(s string) bool {
				return strings.Trim(s, "0123456789") == strings.TrimLeft(s, "0123456789") && sizeOf(s) != 10<<20
			},
			"backups":   func(s string) bool { n, err := strconv.Atoi(s); return err == nil && n > 0 && n <= 20 },
			"name_mode": func(s string) bool { return s == "prefix" || s == "postfix" },
			"archive":   func(s string) bool { return false },
		} {
			if v, ok := d[key]; ok && !usual(v) {
				x.Class("unusual %s", key)
			}
		}
	}
	for i := range c.Ops {
		o, res := &c.Ops[i], r.Op[i]
		switch o.K {
		case "setcfg", "loadcfg", "loadfile":
			if res.Err != "" {
				return fmt.Errorf("the configuration is refused: %s", res.Err)
			}
			continue
		case "log":
			used[o.L] = true
			if outs[o.L].log(int64(len(o.Msg.Text())), time.Unix(0, res.Now), k.Umask) {
				rolls++
			}
		case "close":
		default:
			continue
		}
		if err := k.listing(outs, prior, seenOf(res.Files), o.K == "close", used); err != nil {
			return fmt.Errorf("after op %d (%s): %w", i, o.K, err)
		}
	}
	x.Class("form %s", k.Form)
	x.Class("rolls %s", bucket(rolls))
	for _, o := range outs {
		x.Class("archived %s", bucket(len(o.arched)))
	}
	perms := false
	for i, d := range k.Outs {
		if used[i] {
			for _, n := range []string{"dir_perm", "file_perm", "back_perm"} {
				if d[n] != "" && perm(d[n]) < 0 {
					x.Class("unusable %s", n)
				} else if d[n] != "" {
					x.Class("%s", n)
					perms = true
				}
			}
			if u := d["size"]; u != "" {
				if r := strings.TrimLeft(u, "0123456789"); strings.Contains("KMG", r) {
					x.Class("size unit %s", r)
				}
			}
		}
	}
	x.NonTrivial(rolls > 0 && perms)
	return nil
}

// listing compares what is there with what the settings say.
func (k *setCase) listing(outs []*setOut, prior map[string]wire.Info, s seen, end bool, used map[int]bool) error {
	expect := map[string]bool{"cfg.yaml": k.Form == "file"}
	dirs := map[string]bool{}
	for n, o := range outs {
		d := k.Outs[n]
		for a := o.dir; a != "."; a = filepath.Dir(a) {
			dirs[a] = true
			if i, ok := s[a]; ok && prior[a].Kind == "" && i.Mode != o.dirPerm&^k.Umask {
				return fmt.Errorf("output %v: directory %s has mode %04o, expected %04o", d, a, i.Mode, o.dirPerm&^k.Umask)
			}
		}
		if d["async"] == "true" && o.ext != "" {
			dirs[filepath.Join(o.dir, ".log4g_tmp")] = true
			for p := range s {
				if _, ok := o.labelOfPath(strings.TrimSuffix(p, o.ext)); ok || !end && strings.Contains(p, ".log4g_tmp/") {
					expect[p] = true
				}
			}
		}
		if d["async"] == "true" && !end {
			for p := range s {
				if p == o.curPath() {
					expect[p] = true
				}
				if _, ok := o.labelOfPath(p); ok {
					expect[p] = true
				}
			}
			continue
		}
		cur, ok := s[o.curPath()]
		if ok {
			expect[o.curPath()] = true
		}
		if !used[n] {
			for p := range prior {
				expect[p] = true
			}
			continue
		}
		if !ok || cur.Kind != "f" {
			return fmt.Errorf("output %v: no file %s", d, o.curPath())
		}
		if d["async"] == "true" {
			// how messages are batched is not judged here
			total := int64(0)
			for p, i := range s {
				l, ok := o.labelOfPath(p)
				if !ok {
					continue
				}
				expect[p] = true
				total++
				if _, ok := prior[p]; !ok && i.Mode != o.backPerm {
					return fmt.Errorf("output %v: backup %s has mode %04o, expected %04o", d, l, i.Mode, o.backPerm)
				}
			}
			if total > int64(o.max) {
				return fmt.Errorf("output %v: %d backups", d, total)
			}
			if _, ok := prior[o.curPath()]; !ok && cur.Mode != o.filePerm&^k.Umask {
				return fmt.Errorf("output %v: %s has mode %04o, expected %04o", d, o.curPath(), cur.Mode, o.filePerm&^k.Umask)
			}
			continue
		}
		if cur.Size != o.size {
			return fmt.Errorf("output %v: %s has %d bytes, expected %d", d, o.curPath(), cur.Size, o.size)
		}
		if cur.Mode != o.mode {
			return fmt.Errorf("output %v: %s has mode %04o, expected %04o", d, o.curPath(), cur.Mode, o.mode)
		}
		for l, b := range o.back {
			i, ok := s[o.path(l)]
			switch {
			case !ok:
				return fmt.Errorf("output %v: backup %s is missing", d, o.path(l))
			case i.Size != b[0]:
				return fmt.Errorf("output %v: backup %s has %d bytes, expected %d", d, o.path(l), i.Size, b[0])
			case i.Mode != int(b[1]):
				return fmt.Errorf("output %v: backup %s has mode %04o, expected %04o", d, o.path(l), i.Mode, b[1])
			}
			expect[o.path(l)] = true
		}
		for l := range o.arched {
			if i, ok := s[o.arch(l)]; !ok || i.Kind != "f" {
				return fmt.Errorf("output %v: archive %s is missing", d, o.arch(l))
			}
			expect[o.arch(l)] = true
			tmp := filepath.Join(o.dir, ".log4g_tmp")
			dirs[tmp] = true
			if i, ok := s[tmp]; ok && len(outs) == 1 && i.Mode != o.dirPerm&^k.Umask {
				return fmt.Errorf("output %v: directory %s has mode %04o, expected %04o", d, tmp, i.Mode, o.dirPerm&^k.Umask)
			}
		}
	}
	for p, i := range s {
		if i.Kind == "d" && !dirs[p] && prior[p].Kind == "" || i.Kind != "d" && !expect[p] {
			return fmt.Errorf("%s should not be there", p)
		}
		if b, ok := prior[p]; ok && i.Kind == "d" && b.Mode != i.Mode {
			return fmt.Errorf("the mode of the existing directory %s was changed from %04o to %04o", p, b.Mode, i.Mode)
		}
	}
	return nil
}

func init() {
	add(Prop{ID: "C23", Rule: "one or two rolling outputs with random permissions (usable and not), umask, sizes in all units up to some GB (files brought near the limit as sparse files), numbers of backups, also unusable ones, name modes and paths, " +
		"configured in Go form, bare or quoted YAML, JSON or a YAML file; names, sizes and modes below the working directory are compared after every message. " +
		"Non-trivial: at least one roll and one usable permission setting."}, genSet, checkSet, func() (r []setCase) {
		for _, form := range []string{"go", "yaml", "yamlq", "json", "file"} {
			for _, size := range []string{"100", "1K", "1M", "1G", "3G", "5000M"} {
				d := map[string]string{"name": "o0", "type": "size_rolling_file", "format": "f0", "file": "d0/rf.log", "file_perm": "0640", "back_perm": "0550", "dir_perm": "0750", "size": size, "backups": "5"}
				r = append(r, setCase{Form: form, Umask: 022, Outs: []map[string]string{d}, Files: []wire.File{{Path: "d0/rf.log", Sparse: sizeOf(size) - 1, Mode: 0644}},
					Ops: []wire.Op{{K: "log", M: "Info", Msg: &wire.Msg{}}, {K: "log", M: "Info", Msg: &wire.Msg{I: 1}}, {K: "log", M: "Info", Msg: &wire.Msg{I: 2}}}})
			}
		}
		return
	})
}
