package driver

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C28: settings of any text.

type anyOut struct {
	D    map[string]string
	File string // path of the file, "" if it cannot be written
}

type anyCase struct {
	Umask int
	Timed bool
	Outs  []anyOut
	Files []wire.File
	Odd   []map[string]string // formats with odd layouts
	Order []string            // outputs of the logger
	Ops   []wire.Op
}

var oddTexts = []string{"", " ", "0", "-1", "1", "2", "-0", "00", "1.5", "1e9", "0x10", "NaN", "true", "TRUE", "false", "nil", "null", "99999999999999999999", "-99999999999999999999",
	"2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "1K", "1M", "0K", "-5K", "K", "KK", "K1", "١", "é", "日本語", "a b", "\n", "\x00", "\t1", "1 ", "%d", "%s%n", "%{msg}", "${HOME}", "$(id)", "`x`", "a/b", "/", ".", "*", "[", "\\", "'", "\"", "zip", "gzip", "prefix", "all", "ALL", "0777", "07777", "0o17", "-0777", "2006", "15:04:05", "2006-01-02T15-04-05.000000", "Monday", "MST", "_2", "x"}

func oddText(t *rapid.T) string {
	switch flat(t, 0, 9) {
	case 0:
		return strings.Repeat(pick(t, "9", "x", "2006", "é", " ", "0"), pick(t, 10, 60, 300, 5000))
	case 1:
		return strings.ToValidUTF8(rapid.String().Draw(t, "s"), "?")
	case 2:
		return fmt.Sprint(rapid.Int64().Draw(t, "i"))
	case 3:
		return pick(t, oddTexts...) + pick(t, oddTexts...)
	}
	return pick(t, oddTexts...)
}

// oddPattern keeps backups where they belong.
func oddPattern(t *rapid.T) string {
	s := oddText(t)
	if strings.Contains(s, "..") || strings.HasSuffix(s, ".zip") || strings.HasSuffix(s, ".gz") {
		return "2006"
	}
	return s
}

func genAny(t *rapid.T) anyCase {
	k := anyCase{Umask: pick(t, 0, 022)}
	for i := flat(t, 1, 4); i > 0; i-- {
		n := fmt.Sprintf("u%d", i)
		d := map[string]string{"name": n, "format": "f0", "type": pick(t, "size_rolling_file", "size_rolling_file", "size_rolling_file", "time_rolling_file", "time_rolling_file", "console", "memory", "syslog")}
		if chance(t, 25) {
			d["name"] = n + oddText(t)
		}
		o := anyOut{D: d}
		keys := []string{"async", "queue_size", "batch_num", "threshold", "size", "pattern", "backups", "archive", "name_mode", "dir_perm", "file_perm", "back_perm", "prefix", "x"}
		if rolling(d) {
			d["size"], d["pattern"] = pick(t, "1", "50", "300", "100M"), pick(t, "20060102150405", "2006-01-02T15-04-05", "05")
			base := pick(t, "app.log", "a", " ", "a b.log", "-x", "é日.log", "[a]*?.log", "%d%s", "a\nb", "\\", "~", "#", "x.1", "1", "2006", ".hidden", "...", "x.", "CON", "a'b\"", "$HOME.log", "a${b}c", "$(id)`x`", "%41.log", "a%2fb", "A.LOG", "&;|<x>!", "x,y=z:1", "$1", strings.Repeat("n", pick(t, 100, 230, 248, 250, 252, 253, 255)))
			switch j := flat(t, 0, 9); {
			case j < 7:
				o.File = n + "/" + pick(t, "", "s/", "s//./", "a b/é/") + base
			case j == 7:
				// no such file can be
				o.File = pick(t, "", ".", "./", "/", n+"/", n+"/.", "file/x", "file/x/y", n+"/a\x00b", n+"/"+strings.Repeat("n", 256), strings.Repeat("n", 300)+"/x", "/proc/nosuch/x", "/dev/null/x", "ro/x", "loop/x")
			default:
				o.File = "dir"
			}
			d["file"] = o.File
			if !strings.HasPrefix(o.File, n+"/") || strings.HasSuffix(o.File, "/") || strings.HasSuffix(o.File, "/.") || strings.Contains(o.File, "\x00") || len(filepath.Base(o.File)) > 255 {
				o.File = ""
			}
			if o.File == "" && chance(t, 20) {
				delete(d, "file")
			}
			if chance(t, 40) {
				d["archive"] = pick(t, "zip", "gzip")
			}
			if chance(t, 30) {
				d["name_mode"] = "prefix"
			}
			if chance(t, 50) {
				d["backups"] = pick(t, "1", "2", "20")
			}
			keys = append(keys, "size", "pattern", "backups", "archive", "name_mode")
		}
		if chance(t, 40) {
			d["async"] = "true"
			d["queue_size"], d["batch_num"] = pick(t, "1", "10", "", oddText(t)), pick(t, "1", "2", "", oddText(t))
		}
		for j := flat(t, 1, 5); j > 0; j-- {
			key := pick(t, keys...)
			switch key {
			case "pattern":
				d[key] = oddPattern(t)
			case "dir_perm", "file_perm":
				// those that mean something let the owner in
				d[key] = pick(t, "", "abc", "-1", "0", "9999", "07777", "0700", "0755", "0x1c0", "rwx", " 0755", "1e3", "٧", "0o700", "99999999999999999999", "u=rwx")
			case "threshold":
				d[key] = pick(t, "", "x", "ALL", "-1", "trace ", "日", "0", "Uninitialized", "99", "All", "\x00", strings.Repeat("all", 100))
			case "x":
				d[oddText(t)+"x"] = oddText(t)
			default:
				d[key] = oddText(t)
			}
		}
		if d["type"] == "time_rolling_file" {
			k.Timed = true
		}
		k.Outs = append(k.Outs, o)
	}
	for i := range k.Outs {
		k.Order = append(k.Order, k.Outs[i].D["name"])
	}
	k.Order = subset(t, append(k.Order, "cap"), len(k.Order)+1, len(k.Order)+1)
	for _, f := range []wire.File{{Path: "file", Content: []byte("x"), Mode: 0600}, {Path: "dir", Dir: true}, {Path: "loop", Link: "loop"}} {
		k.Files = append(k.Files, f)
	}
	for i := flat(t, 0, 3); i > 0; i-- {
		f := map[string]string{"name": fmt.Sprintf("odd%d", i), "type": "text", "layout": oddText(t)}
		for j := flat(t, 0, 4); j > 0; j-- {
			f["layout"] += "%{" + pick(t, "msg", "time", "level", "lvl", "pid", "line", "longfile", "shortfunc", "k", "module", "program", "nosuch", "") + pick(t, "", ":", ":"+oddText(t), ":*d", ":[5]d", ":99999d", ":.99999f", ":v%!", ":\\}", ":s}%{") + pick(t, "}", "}", "}", "")
		}
		if chance(t, 10) {
			delete(f, "layout")
		}
		k.Odd = append(k.Odd, f)
	}
	m := 0
	for i := flat(t, 3, 40); i > 0; i-- {
		if k.Timed && chance(t, 40) {
			k.Ops = append(k.Ops, wire.Op{K: "sleep", D: int64(pick(t, 1, 1, 1, 2, 2, 59, 61, 3600, 3600, 86400, pick(t, 86400, 86400, 86400, 31*86400))) * 1e9, Quiet: true})
		}
		if len(k.Odd) > 0 && chance(t, 20) {
			o := wire.Op{K: "log", L: 1}
			switch flat(t, 0, 9) {
			case 0:
				k.Ops = append(k.Ops, wire.Op{K: "setlevel", L: 1, Lvl: pick(t, -1, 0, 1, 2, 8, 9, 100, -1<<40)})
			case 1:
				k.Ops = append(k.Ops, wire.Op{K: "skip", L: pick(t, 0, 1), N: pick(t, -1, -3, -100, 0, 50, 1000, 1<<40)})
			case 2:
				k.Ops = append(k.Ops, wire.Op{K: "outputs", Name: oddText(t)}, wire.Op{K: "get", L: 2, Name: oddText(t)}, wire.Op{K: "query", L: 2})
			case 3:
				k.Ops = append(k.Ops, mkWriter(1, 1, pick(t, "fields", "ctx", "cancel", "nil"), fieldsOf(t)))
			}
			o.M, o.Lvl = method(t)
			if o.M == "Printf" && chance(t, 30) {
				o.Lvl = pick(t, -1, 0, 1, 8, 9, 100, -1<<40, 1<<40)
			}
			message(t, &o, false)
			if chance(t, 30) {
				o.W = 1
			}
			k.Ops = append(k.Ops, o)
			if chance(t, 10) {
				// the same event for a system log
				o.L, o.W, o.Fmt, o.Args = 3, 0, "odd", nil
				k.Ops = append(k.Ops, o)
			}
			continue
		}
		k.Ops = append(k.Ops, wire.Op{K: "log", L: 0, M: pick(t, "Info", "Error", "Warnf", "Critical"), Msg: &wire.Msg{I: m, Len: pick(t, 0, 0, 60, 200, 2000)}})
		m++
	}
	return k
}

func (k *anyCase) make() *wire.Case {
	c := &wire.Case{TZ: "UTC", Umask: k.Umask, Files: k.Files, Syslog: 1}
	if k.Timed {
		c.Bubble, c.Start = true, 1600000000
	}
	cf := &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": "%{msg}"}}}
	cf.Outputs = append(cf.Outputs, map[string]string{"name": "cap", "type": "cap", "format": "f0"})
	for _, o := range k.Outs {
		cf.Outputs = append(cf.Outputs, o.D)
	}
	cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: "a", Level: "all", Outs: k.Order})
	odd := wire.CfgLogger{Name: "odd", Level: "all"}
	for i, f := range k.Odd {
		n := fmt.Sprintf("odd%d", i)
		cf.Formats = append(cf.Formats, f)
		cf.Outputs = append(cf.Outputs, map[string]string{"name": n, "type": "memory", "format": f["name"]})
		odd.Outs = append(odd.Outs, n)
	}
	cf.Outputs = append(cf.Outputs, map[string]string{"name": "sys", "type": "syslog", "format": "f0", "prefix": "sys"})
	cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: "sys", Level: "all", Outs: []string{"sys"}}, odd, wire.CfgLogger{Name: "root", Level: "all", Outs: []string{"null"}})
	cf.Outputs = append(cf.Outputs, map[string]string{"name": "null", "type": "memory", "format": "f0"})
	c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf}, wire.Op{K: "get", L: 0, Name: "a"}, wire.Op{K: "get", L: 1, Name: "odd"},
		wire.Op{K: "get", L: 3, Name: "sys"},
		wire.Op{K: "mkwriter", L: 1, W: 1, M: "fields", Fields: []wire.Field{{Key: "k", Val: wire.Val{T: "i", I: 5}}}},
		wire.Op{K: "outputs", Name: "a"})
	c.Ops = append(c.Ops, k.Ops...)
	c.Ops = append(c.Ops, wire.Op{K: "close"}, wire.Op{K: "mem"})
	return c
}

// runOf tells which successive messages a text consists of.
func runOf(s string, msgs []string) (from, to int, err error) {
	if s == "" {
		return 0, 0, nil
	}
	from = -1
	for i := range msgs {
		if strings.HasPrefix(s, msgs[i]) {
			from = i
			break
		}
	}
	if from < 0 {
		return 0, 0, fmt.Errorf("does not begin with a message: %q", cut(s, 300))
	}
	for to = from; s != ""; to++ {
		if to == len(msgs) || !strings.HasPrefix(s, msgs[to]) {
			return 0, 0, fmt.Errorf("message %d is not followed by the next one, but by %q", to-1, cut(s, 300))
		}
		s = s[len(msgs[to]):]
	}
	return from, to, nil
}

func checkAny(x *X, k *anyCase) error {
	r := x.Run("plain", k.make())
	if err := r.Crash(); err != nil {
		return err
	}
	if e := r.Op[0].Err; e != "" {
		return fmt.Errorf("the configuration was refused: %s", e)
	}
	if e := r.Op[5].Err; e != "" {
		return fmt.Errorf("no outputs: %s", e)
	}
	var msgs []string
	for i := range k.Ops {
		if m := k.Ops[i].Msg; m != nil {
			msgs = append(msgs, m.Text())
		}
	}
	all := strings.Join(msgs, "")
	var capped strings.Builder
	mem := map[int]string{}
	for i := range r.Res {
		for _, e := range r.Res[i].Evs {
			switch {
			case e.E == "send" && e.Name == "cap":
				capped.Write(e.B)
			case e.E == "mem":
				mem[e.ID] = string(e.B)
			}
		}
	}
	if s := capped.String(); s != all {
		return fmt.Errorf("the output beside was given %d bytes, not the %d of all messages", len(s), len(all))
	}
	tree := ReadTree(r.Dir)
	consoles := 0
	for i, n := range k.Order {
		for _, o := range k.Outs {
			if o.D["name"] != n {
				continue
			}
			switch {
			case o.D["type"] == "console":
				consoles++
			case o.D["type"] == "memory":
				if i < len(r.Op[5].IDs) && mem[r.Op[5].IDs[i]] != all {
					return fmt.Errorf("memory output %v has %d bytes, not %d", o.D, len(mem[r.Op[5].IDs[i]]), len(all))
				}
			case o.File != "":
				if err := o.stored(x, tree, msgs); err != nil {
					return fmt.Errorf("output %v: %v; files %q", o.D, err, tree.Names())
				}
			case rolling(o.D):
				x.Class("file that cannot be written")
			}
			x.Class("%s", o.D["type"])
		}
	}
	for _, m := range msgs {
		if n := strings.Count(string(r.Out), m); n != consoles {
			return fmt.Errorf("message %q is on the console %d times, not %d", cut(m, 100), n, consoles)
		}
	}
	x.NonTrivial(len(msgs) > 0)
	if len(k.Odd) > 0 {
		x.Class("odd layouts")
	}
	return nil
}

func (o *anyOut) stored(x *X, tree Tree, msgs []string) error {
	cur := filepath.Clean(o.File)
	dir := filepath.Dir(cur)
	ext := archiveExt(o.D)
	var paths []string
	for p, i := range tree {
		if i.Kind == "f" && strings.HasPrefix(p, dir+"/") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	at := make([]string, len(msgs))
	backups := 0
	for _, p := range paths {
		s := string(tree[p].Data)
		switch {
		case ext != "" && strings.HasSuffix(p, ext):
			u, err := unpack(ext, tree[p].Data)
			if err != nil {
				return fmt.Errorf("archive %q cannot be read: %v", p, err)
			}
			s = u
			x.Class("archived")
		case p != cur:
			backups++
		}
		from, to, err := runOf(s, msgs)
		if err != nil {
			return fmt.Errorf("%q: %v", p, err)
		}
		if from == to && p != cur {
			return fmt.Errorf("%q is empty", p)
		}
		for ; from < to; from++ {
			if at[from] != "" {
				return fmt.Errorf("message %d is in %q and in %q", from, at[from], p)
			}
			at[from] = p
		}
	}
	if backups > 0 {
		x.Class("rolled")
	}
	if len(msgs) == 0 {
		return nil
	}
	if at[len(msgs)-1] != cur {
		return fmt.Errorf("the last message is not in %q", cur)
	}
	if ext != "" || backups < maxBackups(o.D) {
		for i := range msgs {
			if at[i] == "" {
				return fmt.Errorf("message %d is nowhere", i)
			}
		}
	}
	return nil
}

func init() {
	add(Prop{ID: "C28",
		Rule: "One configuration of one to four outputs of all types whose settings (sizes, patterns, numbers, permissions, file names, names, unknown ones) are partly arbitrary texts, some of whose files cannot be written, beside a recording output; up to three formats with arbitrary layouts; 3 to 40 messages, for time rolling under a virtual clock. A case is non-trivial if a message was logged to these outputs."},
		genAny, checkAny)
}
