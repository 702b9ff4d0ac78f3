package driver

import (
	"fmt"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// rollCase is a life of rolling outputs over several processes. Output i
// receives what logger i logs.
type rollCase struct {
	TZ    string
	Outs  []map[string]string
	Files []wire.File
	Sess  []rollSess
	Many  int         `json:",omitempty"` // so many more files that are no backups
	F     *wire.Fault `json:",omitempty"` // in the first process
}

// many adds the files that are no backups.
func (k *rollCase) many() []wire.File {
	l := k.Files
	o := newRollOut(k.Outs[0], time.UTC)
	for i := 0; i < k.Many; i++ {
		n := fmt.Sprintf("amany%05d.txt", i)
		switch i % 4 {
		case 1:
			n = fmt.Sprintf("zmany%05d", i)
		case 2:
			n = o.name(fmt.Sprintf("many%d", i))
		}
		l = append(l, wire.File{Path: o.dir + "/" + n})
	}
	return l
}

type rollSess struct {
	Start int64
	Ops   []wire.Op           // log, sleep, put, rm; L is the output
	Set   []map[string]string `json:",omitempty"` // other settings of the outputs
	Again bool                `json:",omitempty"` // not another process, but another SetConfig
}

var patterns = []string{"2006-01-02", "2006-01-02T15", "2006-01-02T15-04", "2006-01-02T15-04-05", "20060102", "02Jan06", "Jan-02-2006", "02.01.2006", "2-1-06", "2006-01", "January 2006", "Mon 02 Jan 2006 15h04", "02-01-2006 03-04-05PM", "2006"}

// startTime is some time, often near the end of a day, month or year.
func startTime(t *rapid.T) int64 {
	if chance(t, 70) {
		return 1600000000 + int64(flat(t, 0, 100000000))
	}
	at := pick(t, "2024-02-28", "2024-02-29", "2023-02-28", "2023-12-31", "2024-12-31", "2020-12-31", "2021-01-31", "2021-04-30", "2024-12-29", "2038-01-18", "2099-12-31", "2001-09-08", "2024-03-09")
	d, err := time.Parse("2006-01-02", at)
	if err != nil {
		infra("%v", err)
	}
	return d.Unix() + 86400 - int64(pick(t, 1, 30, 600, 3600, 5*3600, 86400))
}

// span of a period of the pattern
func span(pattern string) time.Duration {
	switch {
	case strings.Contains(pattern, "05"):
		return time.Second
	case strings.Contains(pattern, "04"):
		return time.Minute
	case strings.Contains(pattern, "15"):
		return time.Hour
	case strings.Contains(strings.Replace(pattern, "2006", "", -1), "2"):
		return 24 * time.Hour
	case strings.Contains(pattern, "Jan") || strings.Contains(pattern, "01"):
		return 30 * 24 * time.Hour
	}
	return 365 * 24 * time.Hour
}

// rollGen shapes rolling cases.
type rollGen struct {
	types   []string
	archive []string
	outs    int
	backups func() int
	foreign int // at most, per output
	dst     int // per cent in zones with clocks going back
	msgs    [2]int
	sess    [2]int
	block   int
	prior   bool
	async   int
	vary    int // per cent of other settings in later sessions
}

var dstZones = []struct {
	tz   string
	back int64 // clocks go back at this second
}{{"Europe/Berlin", 1635642000}, {"America/New_York", 1636264800}, {"Australia/Lord_Howe", 1617462000}, {"America/St_Johns", 1636259400}}

func genRoll(t *rapid.T, g rollGen) rollCase {
	k := rollCase{TZ: pick(t, "UTC", "UTC", "Asia/Kolkata", "Asia/Tokyo", "America/Bogota")}
	start := startTime(t)
	back := int64(0)
	regular := false // pauses that make minutes recur
	if chance(t, g.dst) {
		z := pick(t, dstZones...)
		k.TZ, back = z.tz, z.back
		start = back - int64(flat(t, 0, 4*3600))
		if regular = chance(t, 70); regular {
			start = back - 600*int64(flat(t, 1, 9))
		}
	}
	loc, err := time.LoadLocation(k.TZ)
	if err != nil {
		infra("%v", err)
	}
	no := flat(t, 1, g.outs)
	used := map[string]bool{}
	var owner []int // of files, the output they were made for
	step := time.Hour
	for i := 0; i < no; i++ {
		for len(owner) < len(k.Files) {
			owner = append(owner, i-1)
		}
		d := map[string]string{"name": fmt.Sprintf("o%d", i), "type": pick(t, g.types...), "format": "f0"}
		dir := pick(t, "log/", "log/", "log/sub/", "log/a/b c/")
		base := pick(t, "app.log", "app.log", "app", "x.y.log", "log", "é.log", "app.log.txt", "a b.log", "-x.log", "app%d.log", "[a]*.log", "app.2020.log", "-")
		if i > 0 && chance(t, 70) {
			// a name close to the first one's
			dir, base = "log/", pick(t, "app.logs", "app.log.old", "b.app.log", "app.log.x.log", "xapp.log", "app.lo", "App.log", "my.app.log")
		}
		for used[dir+base] || strings.HasSuffix(base, ".1") {
			base = "z" + base
		}
		used[dir+base] = true
		d["file"] = dir + base
		if m := pick(t, "", "postfix", "prefix", "prefix"); m != "" {
			d["name_mode"] = m
		}
		if a := pick(t, g.archive...); a != "" {
			d["archive"] = a
		}
		d["backups"] = fmt.Sprint(g.backups())
		if d["type"] == "size_rolling_file" {
			switch flat(t, 0, 9) {
			case 0:
				d["size"] = "1"
			case 1:
				d["size"] = "1K"
			case 2:
				d["size"] = fmt.Sprint(flat(t, 30, 70))
			default:
				d["size"] = fmt.Sprint(flat(t, 2, 400))
			}
		} else {
			d["pattern"] = pick(t, patterns...)
			if back > 0 {
				d["pattern"] = pick(t, "2006-01-02T15-04", "2006-01-02T15", "2006-01-02T15-04", "2006-01-02T15-04-05", "02-01-2006 03-04PM")
			}
			if s := span(d["pattern"]); i == 0 || s < step {
				step = s
			}
		}
		if chance(t, 15) {
			d["file_perm"], d["back_perm"] = "0644", "0444"
		}
		if chance(t, g.async) {
			d["async"], d["batch_num"] = "true", pick(t, "1", "1", "2", "3", "20")
			d["queue_size"] = pick(t, "1", "10", "1000")
		}
		k.Outs = append(k.Outs, d)
		o := newRollOut(d, loc)
		files := map[string]bool{}
		put := func(f wire.File) {
			if !files[f.Path] && f.Path != o.curPath() {
				files[f.Path] = true
				k.Files = append(k.Files, f)
			}
		}
		if g.prior && chance(t, 50) {
			// what an earlier process left
			nb := flat(t, 0, o.max)
			first := pick(t, 1, 1, 2, 8, 9, 95, 98, 998)
			at := time.Unix(start, 0)
			for j := 0; j < nb; j++ {
				label := fmt.Sprint(first + j)
				if o.timed {
					at = at.Add(-span(o.pattern) * time.Duration(pick(t, 1, 1, 2, 10)))
					if span(o.pattern) > 24*time.Hour {
						at = time.Unix(start, 0).AddDate(-j-1, 0, 0)
					}
					label = at.In(loc).Format(o.pattern)
					if back > 0 && at.Unix() > back-7200 {
						continue
					}
				}
				f := wire.File{Path: o.path(label), Msg: &wire.Msg{T: 100 + i, I: j, Len: flat(t, 1, 100)}}
				if chance(t, 30) {
					f.Mode = pick(t, 0500, 0400, 0644)
				}
				put(f)
			}
			if chance(t, 60) {
				k.Files = append(k.Files, wire.File{Path: o.curPath(), Msg: &wire.Msg{T: 200 + i, Len: flat(t, 1, 500)}})
			}
		}
		// files that are none of its backups
		nf := 0
		if g.foreign > 0 {
			nf = flat(t, 0, 8)
			if chance(t, 20) {
				nf = g.foreign
			}
		}
		for j := 0; j < nf; j++ {
			good := fmt.Sprint(flat(t, 1, 30))
			if o.timed {
				good = time.Unix(start, 0).Add(time.Duration(flat(t, 0, 30)-25) * span(o.pattern)).In(loc).Format(o.pattern)
			}
			bad := pick(t, "x", "1a", "a1", "1.5", "0x1", "", " 1", "1 ", "old", "bak.1", "1.bak", "..1", "2020-13-45", "99-99", good+"x", good+"~", "x"+good, good+".tmp", good+".log", "1e3", "1_0", "١")
			var p string
			switch flat(t, 0, 7) {
			case 0, 1:
				p = o.path(bad)
			case 2: // the other mode
				if o.mode == "prefix" {
					p = o.dir + "/" + o.base + "." + good
				} else {
					p = o.dir + "/" + good + "." + o.base
				}
			case 3:
				p = o.dir + "/" + pick(t, "other.log", "other", "b"+o.base, o.base+"b") + "." + good
			case 4:
				p = o.path(good) + pick(t, ".zip", ".gz", ".tar.gz", ".bz2", ".bak")
			case 5:
				p = o.dir + "/" + o.base + pick(t, "s", "_", "-"+good, good, ".lock")
			case 6:
				p = o.dir + "/sub dir/" + o.name(good)
			default:
				p = o.dir + "/" + fmt.Sprintf("f%03d", j)
			}
			if l, ok := o.labelOfPath(p); ok {
				_ = l
				continue
			}
			if o.ext != "" && strings.HasSuffix(p, o.ext) {
				continue
			}
			f := wire.File{Path: p, Msg: &wire.Msg{T: 300 + i, I: j}, Mode: pick(t, 0644, 0600, 0444)}
			switch {
			case chance(t, 10):
				f = wire.File{Path: p, Dir: true}
			case chance(t, 5):
				f = wire.File{Path: p, Link: pick(t, "nowhere", "../x", o.base)}
			}
			put(f)
		}
		// things named like backups that are no files, beyond the labels used
		if g.foreign > 0 && chance(t, 20) {
			label := fmt.Sprint(flat(t, 2000, 3000))
			if o.timed {
				label = time.Unix(start, 0).AddDate(-30-flat(t, 0, 5), 0, 0).In(loc).Format(o.pattern)
			}
			if chance(t, 50) {
				put(wire.File{Path: o.path(label), Dir: true})
			} else {
				put(wire.File{Path: o.path(label), Link: "nowhere"})
			}
		}
		if chance(t, g.block) {
			k.Files = append(k.Files, wire.File{Path: o.dir + "/.log4g_tmp", Content: []byte("in the way")})
		}
	}
	// two outputs may not claim each other's files
	for i := range k.Outs {
		o := newRollOut(k.Outs[i], loc)
		for j := range k.Outs {
			q := newRollOut(k.Outs[j], loc)
			if i != j {
				if o.mine(q.curPath(), wire.Info{Kind: "f"}) || o.mine(q.path("1"), wire.Info{Kind: "f"}) || o.mine(q.path("2020-01-01"), wire.Info{Kind: "f"}) {
					k.Outs = k.Outs[:1]
					break
				}
			}
		}
		if len(k.Outs) == 1 {
			break
		}
	}
	kept := k.Files[:0]
	dirs := map[string]bool{}
	for len(owner) < len(k.Files) {
		owner = append(owner, no-1)
	}
	for n, f := range k.Files {
		bad := owner[n] >= len(k.Outs)
		for j, d := range k.Outs {
			// nothing made for one output is a file of another
			if j != owner[n] && !strings.HasSuffix(f.Path, "/.log4g_tmp") && newRollOut(d, loc).mine(f.Path, wire.Info{Kind: "f"}) {
				bad = true
			}
		}
		for _, g := range kept {
			// a file cannot be a directory as well
			if strings.HasPrefix(f.Path, g.Path+"/") && !g.Dir || strings.HasPrefix(g.Path, f.Path+"/") && !f.Dir || f.Path == g.Path {
				bad = true
			}
		}
		for _, d := range k.Outs {
			if strings.HasPrefix(d["file"], f.Path+"/") && !f.Dir || f.Path == d["file"] && f.Dir {
				bad = true
			}
		}
		if !bad && !dirs[f.Path] {
			dirs[f.Path] = true
			kept = append(kept, f)
		}
	}
	k.Files = kept
	i := 0
	now := start
	for s := flat(t, g.sess[0], g.sess[1]); s > 0; s-- {
		var se rollSess
		se.Start = now
		if len(k.Sess) > 0 && chance(t, g.vary) {
			se.Again = chance(t, 40)
			for _, d := range k.Outs {
				m := map[string]string{}
				if chance(t, 60) {
					m["backups"] = fmt.Sprint(g.backups())
				}
				if d["size"] != "" && chance(t, 40) {
					m["size"] = pick(t, "1", "1K", fmt.Sprint(flat(t, 30, 400)))
				}
				if d["archive"] == "" && chance(t, 30) {
					m["x"] = "unknown"
				}
				se.Set = append(se.Set, m)
			}
		}
		for m := flat(t, g.msgs[0], g.msgs[1]); m > 0; m-- {
			if hasTimed(k.Outs) && chance(t, 60) {
				d := step / time.Duration(pick(t, 3, 2, 1, 1, 1))
				if chance(t, 25) {
					d = step * time.Duration(flat(t, 1, 4))
				}
				if chance(t, 10) {
					d = time.Duration(flat(t, 1, 100)) * time.Millisecond
				}
				if chance(t, 8) && g.async == 0 {
					// after which a part of the date is the same
					d = time.Hour * time.Duration(pick(t, 1, 12, 24, 24, 48, 7*24, 30*24, 31*24, 365*24, 366*24))
				}
				if regular && chance(t, 85) {
					d = 10 * time.Minute * time.Duration(pick(t, 1, 1, 2, 3, 5))
				} else if back > 0 && chance(t, 30) {
					d = time.Duration(flat(t, 10, 40)) * time.Minute
				}
				now += int64(d / time.Second)
				se.Ops = append(se.Ops, wire.Op{K: "sleep", D: int64(d)})
			}
			m, lvl := method(t)
			o := wire.Op{K: "log", L: flat(t, 0, len(k.Outs)-1), M: m, Lvl: lvl, Msg: &wire.Msg{I: i}}
			if chance(t, 40) {
				o.Msg.Len = flat(t, 1, 300)
			}
			if chance(t, 3) {
				o.Msg.Len = pick(t, 1024, 4096, 5000, 8192, 32768, 65536, 70000, 70000, 300000, 1200000)
			}
			se.Ops = append(se.Ops, o)
			i++
			if g.block > 0 && chance(t, 4) {
				d := newRollOut(k.Outs[flat(t, 0, len(k.Outs)-1)], loc).dir
				if chance(t, 50) {
					se.Ops = append(se.Ops, wire.Op{K: "rm", Name: d + "/.log4g_tmp"})
				} else {
					se.Ops = append(se.Ops, wire.Op{K: "rm", Name: d + "/.log4g_tmp"}, wire.Op{K: "put", F: &wire.File{Path: d + "/.log4g_tmp", Content: []byte("in the way")}})
				}
			}
		}
		if g.block > 0 && chance(t, 50) {
			for _, d := range k.Outs {
				se.Ops = append(se.Ops, wire.Op{K: "rm", Name: newRollOut(d, loc).dir + "/.log4g_tmp"})
			}
		}
		now += int64(flat(t, 0, 3)) * int64(step/time.Second)
		k.Sess = append(k.Sess, se)
	}
	return k
}

func hasTimed(l []map[string]string) bool {
	for _, d := range l {
		if d["type"] == "time_rolling_file" {
			return true
		}
	}
	return false
}

// rollStep is called after each message: before and after are the listings,
// o the model after the message, rolled whether it says there was a roll.
type rollStep func(o *rollOut, before, after seen, rolled bool, what string) error

// outputs of a session
func (k *rollCase) outputs(s int) (l []map[string]string) {
	for j, d := range k.Outs {
		m := map[string]string{}
		for a, v := range d {
			m[a] = v
		}
		if j < len(k.Sess[s].Set) {
			for a, v := range k.Sess[s].Set[j] {
				m[a] = v
			}
		}
		l = append(l, m)
	}
	return
}

// session makes the case of one process, which begins with session i.
func (k *rollCase) session(i int) *wire.Case {
	c := &wire.Case{TZ: k.TZ, Snap: "log", SnapCRC: true}
	if hasTimed(k.Outs) {
		c.Bubble, c.Start = true, k.Sess[i].Start
	}
	cf := &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": "%{msg}"}}, Outputs: k.outputs(i)}
	var nm []string
	for j := range k.Outs {
		x := fmt.Sprintf("l%d", j)
		nm = append(nm, x)
		cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: x, Level: "all", Outs: []string{k.Outs[j]["name"]}})
	}
	c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
	for j, x := range nm {
		c.Ops = append(c.Ops, wire.Op{K: "get", L: j, Name: x})
	}
	c.Ops = append(c.Ops, wire.Op{K: "ls", Name: "log", N: 2})
	c.Ops = append(c.Ops, k.Sess[i].Ops...)
	if i == 0 {
		c.Files = k.many()
	}
	for i++; i < len(k.Sess) && k.Sess[i].Again; i++ {
		cf := clone(cf)
		cf.Outputs = k.outputs(i)
		c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
		c.Ops = append(c.Ops, k.Sess[i].Ops...)
	}
	return c
}

func (k *rollCase) loc() *time.Location {
	loc, err := time.LoadLocation(k.TZ)
	if err != nil {
		infra("%v", err)
	}
	return loc
}

// runRoll executes the sessions and calls step after each message, other after
// each other op, and end after each session.
func (x *X) runRoll(k *rollCase, step rollStep, other func(outs []*rollOut, before, after seen, what string) error, end func(outs []*rollOut, tree Tree) error) error {
	dir := x.NewDir()
	var outs []*rollOut
	for _, d := range k.Outs {
		outs = append(outs, newRollOut(d, k.loc()))
	}
	for s := range k.Sess {
		if s > 0 && k.Sess[s].Again {
			continue
		}
		c := k.session(s)
		// the model takes over what is there
		if s == 0 {
			Put(dir, c.Files, false)
			c.Files = nil
		}
		tree := ReadTree(dir)
		for j, o := range outs {
			o.set(k.outputs(s)[j])
			all := o.all
			o.found(tree)
			if s > 0 {
				o.all = all
			}
			o.blocked = tree[o.dir+"/.log4g_tmp"].Kind == "f"
		}
		r := x.RunIn("plain", c, dir)
		if err := r.Crash(); err != nil {
			return fmt.Errorf("process %d: %w", s, err)
		}
		var before seen
		for i := range c.Ops {
			o, res := &c.Ops[i], r.Op[i]
			if o.K == "setcfg" && res.Err != "" {
				return fmt.Errorf("process %d: the configuration is refused: %s", s, res.Err)
			}
			after := seenOf(res.Files)
			if o.K == "setcfg" && i > 0 {
				for j, m := range outs {
					m.again(o.Cfg.Outputs[j])
				}
			}
			switch o.K {
			case "ls":
				before = after
				continue
			case "log":
				m := outs[o.L]
				what := fmt.Sprintf("process %d, op %d, output %v", s, i, m.d)
				if m.d["async"] == "true" {
					m.write(o.Msg.Text(), time.Unix(0, res.Now), func(string) bool { return false })
					before = after
					continue
				}
				rolled := m.write(o.Msg.Text(), time.Unix(0, res.Now), func(label string) bool {
					_, ok := after[m.path(label)]
					return ok
				})
				if step != nil {
					if err := step(m, before, after, rolled, what); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
				}
			case "put", "rm":
				for _, m := range outs {
					if o.K == "put" && o.F.Path == m.dir+"/.log4g_tmp" || o.K == "rm" && o.Name == m.dir+"/.log4g_tmp" {
						m.blocked = o.K == "put"
					}
				}
			case "sleep":
				if other != nil {
					what := fmt.Sprintf("process %d, op %d", s, i)
					if err := other(outs, before, after, what); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
				}
			default:
				continue
			}
			before = after
		}
		if end != nil {
			if err := end(outs, ReadTree(dir)); err != nil {
				return fmt.Errorf("after process %d: %w", s, err)
			}
		}
	}
	return nil
}

// streamOK: the backups are the newest of those ever made, with their
// contents, none missing that retention has no reason to drop, and the current
// file holds the rest.
func (o *rollOut) streamOK(after seen) error {
	if err := after.is(o.curPath(), o.cur); err != nil {
		return fmt.Errorf("current file: %w", err)
	}
	labels := o.backups(after)
	all := append([]backup(nil), o.all...)
	o.sort(all)
	if len(labels) > len(all) {
		return fmt.Errorf("backups %v, only %d were made", labels, len(all))
	}
	if len(labels) < len(o.kept) && len(labels) < o.max {
		return fmt.Errorf("backups %v, though %d were made, %v were there and %d are kept", labels, len(all), labelsOf(o.kept), o.max)
	}
	tail := all[len(all)-len(labels):]
	for i, l := range labels {
		if tail[i].label != l {
			return fmt.Errorf("backups %v; those made are %v", labels, labelsOf(all))
		}
		if err := after.is(o.path(l), tail[i].content); err != nil {
			return fmt.Errorf("backup: %w", err)
		}
	}
	return nil
}

func labelsOf(l []backup) (r []string) {
	for _, b := range l {
		r = append(r, b.label)
	}
	return
}

// asyncStream compares backups and current file with the messages, which an
// asynchronous output may have put into other files.
func (o *rollOut) asyncStream(tree Tree, msgs []string, initial string) error {
	return nil
}

// noChange: pauses change nothing.
func noChange(outs []*rollOut, before, after seen, what string) error {
	for p, i := range before {
		if a, ok := after[p]; !ok || !reflect.DeepEqual(a, i) {
			return fmt.Errorf("%s changes while nothing is logged: %+v, then %+v", p, i, a)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			return fmt.Errorf("%s appears while nothing is logged", p)
		}
	}
	return nil
}

func backupsAny(t *rapid.T) func() int {
	return func() int {
		if chance(t, 60) {
			return flat(t, 1, 3)
		}
		return flat(t, 1, 20)
	}
}

func init() {
	add(Prop{
		ID:   "C13",
		Rule: "messages of random sizes to size_rolling_file outputs over one to three processes, with backups, numbers and over-full files left by earlier ones; after every message the directory must be that of the reference model: backups numbered upwards, rolls exactly when the size was reached, contents the logged bytes, only whole oldest backups missing; non-trivial: at least two rolls",
	}, func(t *rapid.T) rollCase {
		return genRoll(t, rollGen{types: []string{"size_rolling_file"}, archive: []string{"", "", "", "zip", "gzip"}, outs: 2, backups: backupsAny(t), msgs: [2]int{1, 25}, sess: [2]int{1, 3}, prior: true, vary: 35, foreign: 4})
	}, func(x *X, k *rollCase) error {
		rolls := 0
		err := x.runRoll(k, func(o *rollOut, before, after seen, rolled bool, what string) error {
			if rolled {
				rolls++
			}
			return o.streamOK(after)
		}, nil, nil)
		x.Class("rolls:%s", bucket(rolls))
		x.Class("mode:%s processes:%d", k.Outs[0]["name_mode"], len(k.Sess))
		x.NonTrivial(rolls > 1)
		return err
	})

	add(Prop{
		ID:   "C14",
		Rule: "size- and time-rolling outputs, up to two in one directory with similar names, among up to 200 files that are no backups (near misses of the names, directories, links, archives); after every message: at most `backups` backups once a roll happened, exactly the oldest (by number or date) removed, nothing else changed in content, size, mode or name; non-trivial: retention removed a backup",
	}, func(t *rapid.T) rollCase {
		g := rollGen{types: []string{"size_rolling_file", "time_rolling_file"}, archive: []string{"", "", "", "zip"}, outs: 2, backups: backupsAny(t), msgs: [2]int{3, 30}, sess: [2]int{1, 2}, prior: true, vary: 35, foreign: 200}
		if chance(t, 2) {
			// a very full directory
			g.outs, g.backups, g.msgs, g.sess = 1, func() int { return flat(t, 1, 3) }, [2]int{4, 10}, [2]int{1, 1}
			k := genRoll(t, g)
			k.small()
			k.Many = pick(t, 300, 700, 1100, 1100, 2100)
			return k
		}
		return genRoll(t, g)
	}, func(x *X, k *rollCase) error {
		removed := 0
		err := x.runRoll(k, func(o *rollOut, before, after seen, rolled bool, what string) error {
			was, is := o.backups(before), o.backups(after)
			if len(is) > o.max && (len(was) <= o.max || rolled) {
				return fmt.Errorf("%d backups, more than %d: %v", len(is), o.max, is)
			}
			// what appeared
			union := map[string]bool{}
			for _, l := range was {
				union[l] = true
			}
			added := 0
			for _, l := range is {
				if !union[l] {
					added++
					union[l] = true
				}
			}
			var all []backup
			for l := range union {
				all = append(all, backup{label: l})
			}
			o.sort(all)
			if n := len(union) - len(is); n > 0 {
				removed += n
				if added == 0 && len(was) <= o.max {
					// the new one itself may be the oldest, but only if it is
					if !rolled {
						return fmt.Errorf("backups %v became %v without one too many", was, is)
					}
				}
				if !o.unsure && !reflect.DeepEqual(labelsOf(all[n:]), is) {
					return fmt.Errorf("of the backups %v, %v remain: not the newest", labelsOf(all), is)
				}
				if len(is) < o.max {
					return fmt.Errorf("of the backups %v only %v remain, though %d may", labelsOf(all), is, o.max)
				}
			}
			// nothing else changed
			for p, i := range before {
				a, ok := after[p]
				if p == o.curPath() || i.Kind == "d" && ok || strings.Contains(p, "/.log4g_tmp") {
					continue
				}
				if l, isb := o.labelOfPath(p); isb && i.Kind == "f" {
					if ok && (a.Size != i.Size || a.Sum != i.Sum) {
						return fmt.Errorf("backup %s (label %s) was modified", p, l)
					}
					continue
				}
				if !ok {
					return fmt.Errorf("%s, which is no backup, is gone", p)
				}
				if !reflect.DeepEqual(a, i) {
					return fmt.Errorf("%s, which is no backup, was modified: %+v, then %+v", p, i, a)
				}
			}
			return nil
		}, nil, nil)
		x.Class("removed:%s", bucket(removed))
		x.Class("foreign files:%s", bucket(len(k.Files)+k.Many))
		x.Class("mode:%s type:%s", k.Outs[0]["name_mode"], k.Outs[0]["type"])
		x.NonTrivial(removed > 0)
		return err
	})

	add(Prop{
		ID:   "C15",
		Rule: "messages and pauses under a virtual clock in several time zones, also across clocks going back, for 14 patterns; after every message the directory must be that of the reference model of periods: rolls exactly at changes of period, backups named by the previous message's period and never overwritten, only whole oldest ones missing; pauses change nothing; non-trivial: at least two rolls, or a period recurred",
	}, func(t *rapid.T) rollCase {
		if chance(t, 35) {
			return genRoll(t, rollGen{types: []string{"time_rolling_file"}, archive: []string{""}, outs: 1, backups: func() int { return 20 }, msgs: [2]int{3, 18}, sess: [2]int{1, 1}, dst: 100})
		}
		return genRoll(t, rollGen{types: []string{"time_rolling_file"}, archive: []string{"", "", "gzip"}, outs: 2, backups: backupsAny(t), msgs: [2]int{1, 25}, sess: [2]int{1, 3}, prior: true, vary: 35, foreign: 4})
	}, func(x *X, k *rollCase) error {
		rolls, skipped := 0, 0
		last := map[*rollOut]string{}
		err := x.runRoll(k, func(o *rollOut, before, after seen, rolled bool, what string) error {
			if rolled {
				rolls++
			} else if last[o] != "" && last[o] != o.label && len(before) > 0 {
				skipped++
			}
			last[o] = o.label
			if o.unsure {
				return nil
			}
			return o.streamOK(after)
		}, noChange, nil)
		x.Class("rolls:%s", bucket(rolls))
		x.Class("recurring:%v", skipped > 0)
		x.Class("pattern:%s", k.Outs[0]["pattern"])
		x.NonTrivial(rolls > 1 || skipped > 0)
		return err
	})

	add(Prop{
		ID:    "C16",
		Kinds: "plain,fault",
		Rule:  "rolling outputs with archive zip or gzip, small backups, several processes, periods that recur, archives and backups left by earlier processes, archiving made impossible for a while or failing at generated file operations; after every message every rolled content must be in exactly one of backup and archive, no temporary file may exist, and with archiving possible at most `backups` backups remain; archives are read with the standard library; non-trivial: something was archived",
	}, func(t *rapid.T) rollCase {
		g := rollGen{types: []string{"size_rolling_file", "time_rolling_file"}, archive: []string{"zip", "gzip"}, outs: 2, backups: func() int { return pick(t, 1, 1, 2, 3, 5) }, msgs: [2]int{3, 25}, sess: [2]int{1, 3}, prior: true, vary: 35, foreign: 4, dst: 30, block: 15}
		if chance(t, 25) {
			// archiving fails on the way
			g.outs, g.msgs, g.sess, g.dst, g.block, g.foreign, g.vary = 1, [2]int{3, 14}, [2]int{1, 2}, 0, 0, 0, 0
			k := genRoll(t, g)
			k.small()
			k.F = &wire.Fault{Errno: pick(t, errnos...), Short: chance(t, 50), Dir: pick(t, ".log4g_tmp", ".log4g_tmp", newRollOut(k.Outs[0], time.UTC).ext)}
			k.F.Kinds = pick(t, "write", "write", "create", "close", "rename", "open", "chmod", "mkdir", "write,close", "write,remove", "", "")
			k.F.From = pick(t, 1, 1, 2, 3, 4, 5, 8, 13)
			k.F.To = k.F.From + pick(t, 1, 1, 2, 3, 10, 1000)
			return k
		}
		return genRoll(t, g)
	}, func(x *X, k *rollCase) error {
		if k.F != nil {
			return x.archiveFault(k)
		}
		archived := 0
		err := x.runRoll(k, func(o *rollOut, before, after seen, rolled bool, what string) error {
			if err := after.is(o.curPath(), o.cur); err != nil {
				return fmt.Errorf("current file: %w", err)
			}
			nb := 0
			for _, b := range o.all {
				inB := after[o.path(b.label)].Kind == "f"
				ar, inA := after[o.arch(b.label)]
				switch {
				case !inB && !inA:
					return fmt.Errorf("backup %s is gone and there is no archive of it: %q", b.label, cut(b.content, 100))
				case inB && inA:
					return fmt.Errorf("backup %s was archived but not removed", b.label)
				case inB:
					nb++
					if err := after.is(o.path(b.label), b.content); err != nil {
						return fmt.Errorf("backup: %w", err)
					}
				default:
					archived++
					if was, ok := before[o.arch(b.label)]; ok && was.Sum != ar.Sum {
						return fmt.Errorf("archive %s was modified", o.arch(b.label))
					}
				}
			}
			if rolled && !o.blocked && nb > o.max {
				return fmt.Errorf("%d backups after a roll, more than %d", nb, o.max)
			}
			for p, i := range after {
				if i.Kind == "f" && strings.Contains(p, "/.log4g_tmp/") {
					return fmt.Errorf("temporary file %s", p)
				}
			}
			if rolled && o.blocked {
				x.Class("blocked")
			}
			return nil
		}, noChange, func(outs []*rollOut, tree Tree) error {
			for _, o := range outs {
				for _, b := range o.all {
					if a, ok := tree[o.arch(b.label)]; ok {
						got, err := unpack(o.ext, a.Data)
						if err != nil {
							return fmt.Errorf("archive %s: %v", o.arch(b.label), err)
						}
						if got != b.content {
							return fmt.Errorf("archive %s: %s", o.arch(b.label), diff(got, b.content))
						}
						if n := zipped(o.ext, a.Data); n != "" && n != o.name(b.label) {
							return fmt.Errorf("archive %s holds a file %q", o.arch(b.label), n)
						}
					}
				}
			}
			return nil
		})
		x.Class("archive:%s type:%s", k.Outs[0]["archive"], k.Outs[0]["type"])
		x.NonTrivial(archived > 0)
		return err
	})
}

// archiveFault: file operations on archives fail in the first process; archives,
// backups and current file still hold everything, once.
func (x *X) archiveFault(k *rollCase) error {
	dir := x.NewDir()
	Put(dir, k.Files, false)
	o := newRollOut(k.Outs[0], k.loc())
	stream := initial(o, ReadTree(dir))
	for s := range k.Sess {
		c := k.session(s)
		c.Files, c.Snap = nil, ""
		kind := "plain"
		if s == 0 {
			c.Fault, kind = k.F, "fault"
		}
		r := x.RunIn(kind, c, dir)
		if err := r.Crash(); err != nil {
			return fmt.Errorf("process %d: %w", s, err)
		}
		for i := range c.Ops {
			op, res := &c.Ops[i], r.Op[i]
			if op.K == "setcfg" && res.Err != "" {
				return fmt.Errorf("process %d: the configuration is refused: %s", s, res.Err)
			}
			if op.K == "log" {
				own := o.ownWrite(res.Fired)
				stream = append(stream, logged{op.Msg.Text(), !own, own})
				for _, f := range res.Fired {
					x.Class("fault:%s", strings.Fields(f)[0])
					x.NonTrivial(true)
				}
			}
		}
		tree := ReadTree(dir)
		err := o.conserved(tree, stream)
		for p, i := range tree {
			// what could be removed must be
			if err == nil && i.Kind == "f" && strings.Contains(p, "/.log4g_tmp/") && k.F.Kinds != "" && !strings.Contains(k.F.Kinds, "remove") {
				err = fmt.Errorf("temporary file %s is left", p)
			}
		}
		if err != nil {
			return fmt.Errorf("process %d, operations %d to %d (%s) on %s fail in process 0 with %q, short %v, output %v: %w", s, k.F.From, k.F.To-1, k.F.Kinds, k.F.Dir, syscall.Errno(k.F.Errno).Error(), k.F.Short, o.d, err)
		}
	}
	return nil
}

func bucket(n int) string {
	switch {
	case n < 3:
		return fmt.Sprint(n)
	case n < 10:
		return "3-9"
	case n < 65:
		return "10-64"
	case n < 1024:
		return "65-1023"
	}
	return "1024+"
}
