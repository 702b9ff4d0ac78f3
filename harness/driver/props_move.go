package driver

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C32: others move, remove and add files while an output is in use.

type moveCase struct {
	TZ    string
	Start int64
	Out   map[string]string
	Files []wire.File
	Ops   []wire.Op // log, sleep, close, setcfg (the same again), mv (Name to Ext), rm, put
}

const moveDir, moveCur = "log/d", "log/d/app.log"

func genC32(t *rapid.T) moveCase {
	k := moveCase{TZ: pick(t, "UTC", "Asia/Kolkata"), Start: startTime(t)}
	d := map[string]string{"name": "o", "format": "f0", "type": pick(t, "size_rolling_file", "size_rolling_file", "time_rolling_file"), "file": pick(t, moveCur, moveCur, "./log/d/app.log")}
	step := time.Duration(0)
	if d["type"] == "size_rolling_file" {
		d["size"] = pick(t, "1", "30", "60", fmt.Sprint(flat(t, 2, 200)), "1K")
	} else {
		d["pattern"] = pick(t, "2006-01-02", "2006-01-02T15", "2006-01-02T15-04", "20060102", "2006")
		step = span(d["pattern"])
	}
	if m := pick(t, "", "prefix"); m != "" {
		d["name_mode"] = m
	}
	if a := pick(t, "", "", "zip", "gzip"); a != "" {
		d["archive"] = a
	}
	d["backups"] = fmt.Sprint(pick(t, 1, 1, 2, 3, 5, 20))
	k.Out = d
	o := newRollOut(d, time.UTC)
	loc, err := time.LoadLocation(k.TZ)
	if err != nil {
		infra("%v", err)
	}
	// labels of backups that the output itself does not make
	used := 0
	foreign := func() string {
		used++
		if o.timed {
			return time.Unix(k.Start, 0).In(loc).AddDate(-used, 0, 0).Format(o.pattern)
		}
		return fmt.Sprint(pick(t, 1000, 1000, 20000) + 100*used)
	}
	now := k.Start
	own := func() string {
		if o.timed {
			return time.Unix(now, 0).Add(-step * time.Duration(flat(t, 0, 3))).In(loc).Format(o.pattern)
		}
		return fmt.Sprint(flat(t, 1, 6))
	}
	msg := 0
	file := func(path string) *wire.File {
		msg++
		return &wire.File{Path: path, Msg: &wire.Msg{T: 100, I: msg, Len: pick(t, 0, 0, 40, 300)}}
	}
	for i := flat(t, 0, 3); i > 0; i-- {
		k.Files = append(k.Files, *file(o.path(foreign())))
	}
	if chance(t, 40) {
		k.Files = append(k.Files, *file(moveCur))
	}
	// links named like backups
	link := func() wire.File {
		label := fmt.Sprint(flat(t, 1, 6))
		if o.timed {
			label = time.Unix(now, 0).Add(step * time.Duration(flat(t, 0, 2))).In(loc).Format(o.pattern)
		}
		if o.ext != "" && chance(t, 30) {
			return wire.File{Path: o.arch(label), Link: "nowhere"}
		}
		return wire.File{Path: o.path(label), Link: pick(t, "nowhere", "app.log", "../away")}
	}
	if chance(t, 25) {
		seen := map[string]bool{}
		for i := flat(t, 1, 3); i > 0; i-- {
			if f := link(); !seen[f.Path] {
				seen[f.Path] = true
				k.Files = append(k.Files, f)
			}
		}
	}
	i, moved := 0, 0
	away := func() string {
		moved++
		switch flat(t, 0, 5) {
		case 0:
			return o.path(foreign())
		case 1:
			return moveDir + "/" + o.name(fmt.Sprintf("old%d", moved))
		case 2:
			return fmt.Sprintf("%s-%d", moveCur, moved)
		}
		return fmt.Sprintf("log/away/m%d", moved)
	}
	add := func(o wire.Op) { k.Ops = append(k.Ops, o) }
	for n := flat(t, 4, 30); n > 0; n-- {
		switch flat(t, 0, 19) {
		case 0, 1:
			add(wire.Op{K: "mv", Name: moveCur, Ext: away()})
			if chance(t, 25) {
				add(wire.Op{K: "put", F: file(moveCur)})
			}
			if chance(t, 35) {
				add(wire.Op{K: "close"})
			}
		case 2:
			add(wire.Op{K: "rm", Name: moveCur})
		case 3:
			add(wire.Op{K: "rm", Name: o.path(own())})
			for chance(t, 30) {
				add(wire.Op{K: "rm", Name: o.path(own())})
			}
		case 4:
			for {
				add(wire.Op{K: "put", F: file(o.path(foreign()))})
				if !chance(t, 40) {
					break
				}
			}
		case 5:
			add(wire.Op{K: "mv", Name: o.path(own()), Ext: away()})
		case 6:
			if chance(t, 50) {
				add(wire.Op{K: "rm", Name: moveDir})
			} else {
				moved++
				add(wire.Op{K: "mv", Name: moveDir, Ext: fmt.Sprintf("log/d%d", moved)})
			}
		case 7:
			if o.ext != "" {
				add(wire.Op{K: "rm", Name: o.arch(own())})
			}
		case 8:
			add(wire.Op{K: "close"})
		case 9:
			if chance(t, 50) {
				add(wire.Op{K: "setcfg"})
			}
		case 10:
			if chance(t, 50) {
				f := link()
				add(wire.Op{K: "put", F: &f})
				break
			}
			add(wire.Op{K: "rm", Name: moveDir + "/.log4g_tmp"})
		default:
			if o.timed && chance(t, 50) {
				p := step * time.Duration(flat(t, 1, 3)) / time.Duration(pick(t, 1, 1, 2))
				now += int64(p / time.Second)
				add(wire.Op{K: "sleep", D: int64(p)})
			}
			m, lvl := method(t)
			add(wire.Op{K: "log", M: m, Lvl: lvl, Msg: &wire.Msg{I: i, Len: pick(t, 0, 0, 0, flat(t, 1, 200))}})
			i++
		}
	}
	add(wire.Op{K: "log", M: "Info", Msg: &wire.Msg{I: i}})
	return k
}

// node is a file, whatever its name.
type node struct {
	text string
	arch bool // an archive of it
	link bool // not a file at all
}

func checkC32(x *X, k *moveCase) error {
	loc, err := time.LoadLocation(k.TZ)
	if err != nil {
		infra("%v", err)
	}
	o := newRollOut(k.Out, loc)
	cf := &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": "%{msg}"}}, Outputs: []map[string]string{k.Out}, Loggers: []wire.CfgLogger{{Name: "root", Level: "all", Outs: []string{"o"}}}}
	c := &wire.Case{TZ: k.TZ, Snap: "log", SnapCRC: true, Files: k.Files}
	if o.timed {
		c.Bubble, c.Start = true, k.Start
	}
	open(c, cf, []string{"root"})
	first := len(c.Ops)
	for _, op := range k.Ops {
		if op.K == "setcfg" {
			op.Cfg = cf
		}
		c.Ops = append(c.Ops, op)
	}
	r := x.Run("plain", c)
	if err := r.Crash(); err != nil {
		return err
	}

	// what is where
	fs := map[string]*node{}
	for _, f := range k.Files {
		fs[f.Path] = &node{text: f.Text(), link: f.Link != ""}
	}
	var w, last *node // open, and written last
	fresh, label := true, ""
	touched, rolls, lost := 0, 0, 0
	below := func(dir string) (l []string) {
		for p := range fs {
			if p == dir || strings.HasPrefix(p, dir+"/") {
				l = append(l, p)
			}
		}
		return
	}
	backups := func() (l []string) {
		for p, n := range fs {
			if b, ok := o.labelOfPath(p); ok && !n.link {
				l = append(l, b)
			}
		}
		sort.Slice(l, func(i, j int) bool { return o.key(l[i]) < o.key(l[j]) })
		return
	}
	for i := first; i < len(c.Ops); i++ {
		op, res := &c.Ops[i], r.Op[i]
		what := fmt.Sprintf("op %d (%s %s %s), output %v", i-first, op.K, op.Name, op.Ext, k.Out)
		after := seenOf(res.Files)
		match := func(fs map[string]*node) error {
			for p, n := range fs {
				if n.link {
					if after[p].Kind != "l" {
						return fmt.Errorf("the link %s does not exist, there is %v", p, after[p])
					}
					continue
				}
				if n.arch {
					if after[p].Kind != "f" {
						return fmt.Errorf("archive %s does not exist", p)
					}
					continue
				}
				if err := after.is(p, n.text); err != nil {
					return err
				}
			}
			for p, i := range after {
				if i.Kind == "f" && fs[p] == nil {
					return fmt.Errorf("there is %s, with %d bytes", p, i.Size)
				}
			}
			return nil
		}
		switch op.K {
		case "setcfg":
			if res.Err != "" {
				return fmt.Errorf("%s: the configuration is refused: %s", what, res.Err)
			}
			w, fresh, label = nil, true, ""
			continue
		case "close":
			w = nil
		case "put":
			switch {
			case fs[op.F.Path] == nil:
				fs[op.F.Path] = &node{text: op.F.Text(), link: op.F.Link != ""}
			case op.F.Link == "":
				fs[op.F.Path].text = op.F.Text()
			}
			touched++
		case "rm":
			for _, p := range below(op.Name) {
				delete(fs, p)
				touched++
			}
		case "mv":
			if len(below(op.Ext)) > 0 {
				break
			}
			for _, p := range below(op.Name) {
				fs[op.Ext+strings.TrimPrefix(p, op.Name)] = fs[p]
				delete(fs, p)
				touched++
			}
		case "log":
			text := op.Msg.Text()
			cur := fs[moveCur]
			now := time.Unix(0, res.Now).In(loc).Format(o.pattern)
			due := false
			if o.timed {
				due = !fresh && label != now
			} else {
				due = !fresh && last != nil && int64(len(last.text)) >= o.size
			}
			// what may happen
			type option struct {
				name string
				fs   map[string]*node
				w    *node
				roll bool
			}
			var opts []option
			cp := func() map[string]*node {
				m := map[string]*node{}
				for p, n := range fs {
					m[p] = n
				}
				return m
			}
			write := func(name string, m map[string]*node, to *node, roll bool) {
				n := &node{text: text}
				if to != nil {
					n.text = to.text + text
				}
				found := false
				for p := range m {
					if to != nil && m[p] == to {
						m[p], found = n, true
					}
				}
				if to == nil {
					m[moveCur] = n
				} else if !found {
					name += ", which is gone"
				}
				opts = append(opts, option{name, m, n, roll})
			}
			must := due && cur != nil && cur == last
			if cur != nil && (due || fresh || cur != last) {
				// it becomes a backup
				lb, ok := label, false
				old := backups()
				if o.timed {
					ok = lb != "" && fs[o.path(lb)] == nil && (o.ext == "" || fs[o.arch(lb)] == nil)
				} else {
					for p, i := range after {
						if l, is := o.labelOfPath(p); is && i.Kind == "f" && fs[p] == nil {
							ok = o.ext == "" || fs[p+o.ext] == nil
							ok = ok && (len(old) == 0 || o.key(l) > o.key(old[len(old)-1]))
							lb = l
						}
					}
				}
				if ok {
					m := cp()
					m[o.path(lb)] = cur
					delete(m, moveCur)
					all := append(old, lb)
					for len(all) > o.max {
						p := o.path(all[0])
						if o.ext != "" {
							m[p+o.ext] = &node{text: m[p].text, arch: true}
						}
						delete(m, p)
						all = all[1:]
					}
					write("a roll to "+lb, m, nil, true)
				} else if o.timed {
					must = false
				} else if must {
					return fmt.Errorf("%s: the file had reached its size of %d, and there is no new backup besides %v", what, o.size, old)
				}
			}
			if !must {
				write("the file at the path", cp(), cur, false)
				if w != nil && w != cur && !due {
					write("the file that was moved", cp(), w, false)
				}
			}
			var errs []string
			hit := false
			for _, op := range opts {
				err := match(op.fs)
				if err == nil {
					if strings.Contains(op.name, "gone") {
						lost++
					}
					fs, w, last, hit = op.fs, op.w, op.w, true
					if op.roll {
						rolls++
					}
					break
				}
				errs = append(errs, op.name+": "+err.Error())
			}
			if !hit {
				return fmt.Errorf("%s: not as it should be after a message of %d bytes; %s", what, len(text), strings.Join(errs, "; or "))
			}
			label, fresh = now, false
			continue
		}
		if op.K == "sleep" || op.K == "close" || op.K == "put" || op.K == "rm" || op.K == "mv" {
			if err := match(fs); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
	}
	tree := ReadTree(r.Dir)
	for p, n := range fs {
		if n.arch {
			got, err := unpack(o.ext, tree[p].Data)
			if err != nil {
				return fmt.Errorf("archive %s: %v", p, err)
			}
			if got != n.text {
				return fmt.Errorf("archive %s: %s", p, diff(got, n.text))
			}
			x.Class("archives")
		}
	}
	x.Class("type:%s, rolls:%s", k.Out["type"], bucket(rolls))
	x.Class("files moved, removed or added by others:%s", bucket(touched))
	if lost > 0 {
		x.Class("messages to removed files")
	}
	x.NonTrivial(touched > 0 && rolls > 0)
	return nil
}

func init() {
	add(Prop{
		ID:   "C32",
		Rule: "an output rolling by size or time, with or without archives, whose current file, backups, archives and whole directory are moved away, removed, replaced and joined by others between messages, pauses, Close and renewed configurations; after every operation all files must be those one of the few allowed behaviours yields from the directory as it was found: a message goes to the file at the path, or while no roll is due to the open one that was moved; a roll makes the file at the path a backup after all existing ones and keeps the newest of those found; nothing else changes; non-trivial: others changed files and there was a roll",
	}, genC32, checkC32)
}
