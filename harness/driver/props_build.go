package driver

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C25: what creators are asked to build, and what becomes of it.

var ownTypes = []string{"t1", "t2", "T1", "cap", "bad"}
var ownFormats = []string{"g1", "g2", "capf", "badf"}

func genBuildCfg(t *rapid.T, nm []string) *wire.Cfg {
	c := &wire.Cfg{}
	fn := subset(t, []string{"f0", "f1", "f2", "o1", "text", "é"}, 1, 4)
	for _, n := range fn {
		f := map[string]string{"name": n}
		switch flat(t, 0, 9) {
		case 0, 1, 2, 3:
			f["type"], f["layout"] = "text", pick(t, "%{msg}\n", "[%{module}] %{msg}\n", "%{lvl} %{msg}\n")
		case 4:
			f["type"], f["layout"] = "text", "%{msg}\n"
			if chance(t, 40) {
				f["type"], f["layout"] = pick(t, "nosuch", "", "text", "text"), pick(t, "no field", "")
			}
		default:
			f["type"] = pick(t, append(ownFormats, "g1", "g2", "capf", "capf", "capf")...)
		}
		extras(t, f)
		c.Formats = append(c.Formats, f)
	}
	on := subset(t, []string{"o0", "o1", "o2", "o3", "f0", "cap", "日"}, 1, 6)
	for i, n := range on {
		o := map[string]string{"name": n, "format": pick(t, fn...)}
		switch flat(t, 0, 9) {
		case 0:
			o["type"] = pick(t, "console", "memory")
		case 1:
			o["type"] = "memory"
		case 2:
			o["type"], o["size"], o["file"] = "size_rolling_file", "1M", fmt.Sprintf("log/o%d.log", i)
		case 3:
			if chance(t, 25) {
				o["type"] = pick(t, "nosuch", "", "CAP")
			} else {
				o["type"] = "memory"
			}
		default:
			o["type"] = pick(t, append(ownTypes, "t1", "t2", "cap", "cap")...)
		}
		extras(t, o)
		c.Outputs = append(c.Outputs, o)
	}
	ln := []string{"root"}
	if chance(t, 20) {
		ln = nil
	}
	for _, n := range append(ln, subset(t, nm, 1, len(nm))...) {
		lvl := flat(t, wire.Uninit, wire.Off)
		if chance(t, 50) {
			lvl = wire.All
		}
		if n == "root" && lvl == wire.Uninit {
			lvl = wire.All
		}
		l := wire.CfgLogger{Name: n, Level: levelText(t, lvl), Outs: subset(t, on, 0, 4)}
		if n == "root" && len(l.Outs) == 0 {
			l.Outs = []string{on[0]}
		}
		if len(l.Outs) == 0 {
			l.Outs = nil
		}
		c.Loggers = append(c.Loggers, l)
	}
	return c
}

func extras(t *rapid.T, m map[string]string) {
	for i := flat(t, 0, 2); i > 0; i-- {
		k := pick(t, "x", "Key", "a b", "ключ", "async", "threshold", "backups", "k1", "")
		if m["file"] != "" || m["type"] == "console" {
			k = pick(t, "x", "Key", "k1")
		}
		m[k] = pick(t, "", "1", "true", "a: b", "ü", " v ", "\"q\"", "INFO", "line\nline")
	}
}

func genBuild(t *rapid.T) wire.Case {
	c := wire.Case{TZ: "UTC"}
	nm := names(t, 1, 5)
	// creators of built-in types are only replaced in the beginning
	for i := flat(t, 0, 2); i > 0 && chance(t, 40); i-- {
		if chance(t, 70) {
			c.Ops = append(c.Ops, wire.Op{K: "reg", M: pick(t, "out", "out", "outerr"), Name: pick(t, "memory", "console", "size_rolling_file"), Ext: fmt.Sprintf("r%d", i)})
		} else {
			c.Ops = append(c.Ops, wire.Op{K: "reg", M: pick(t, "fmt", "fmt", "fmterr"), Name: "text", Ext: fmt.Sprintf("r%d", i)})
		}
	}
	reg := func(k int) wire.Op {
		if chance(t, 60) {
			return wire.Op{K: "reg", M: pick(t, "out", "out", "out", "outerr"), Name: pick(t, ownTypes...), Ext: fmt.Sprintf("c%d", k)}
		}
		return wire.Op{K: "reg", M: pick(t, "fmt", "fmt", "fmt", "fmterr"), Name: pick(t, ownFormats...), Ext: fmt.Sprintf("c%d", k)}
	}
	for i, n := range []string{"t1", "t2", "T1", "g1", "g2"} {
		if chance(t, 70) {
			c.Ops = append(c.Ops, wire.Op{K: "reg", M: map[byte]string{'t': "out", 'T': "out", 'g': "fmt"}[n[0]], Name: n, Ext: fmt.Sprintf("i%d", i)})
		}
	}
	for i := flat(t, 0, 3); i > 0; i-- {
		c.Ops = append(c.Ops, reg(i))
	}
	slots := map[string]int{}
	get := func(n string) wire.Op {
		s, ok := slots[n]
		if !ok {
			s = len(slots)
			slots[n] = s
		}
		return wire.Op{K: "get", L: s, Name: n}
	}
	ask := append(append([]string{}, nm...), "root", "root")
	for _, n := range nm {
		ask = append(ask, ancestors(n)...)
	}
	tok := 0
	cfgs := 0
	for i := flat(t, 4, 25); i > 0; i-- {
		k := flat(t, 0, 99)
		if cfgs == 0 && chance(t, 60) {
			k = 0
		}
		switch {
		case k < 10:
			cf := genBuildCfg(t, nm)
			if chance(t, 10) {
				cf = spoil(t, cf)
			}
			if chance(t, 30) {
				c.Ops = append(c.Ops, wire.Op{K: "loadcfg", Cfg: cf, Data: jsonText(t, cf), Ext: "json"})
			} else {
				c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
			}
			cfgs++
		case k < 25:
			c.Ops = append(c.Ops, get(pick(t, ask...)))
		case k < 55:
			c.Ops = append(c.Ops, wire.Op{K: "outputs", Name: pick(t, append(ask, "", "nosuch", "Root")...)})
		case k < 70 && len(slots) > 0:
			c.Ops = append(c.Ops, logTok(t, flat(t, 0, len(slots)-1), tok))
			tok++
		case k < 80:
			c.Ops = append(c.Ops, reg(100+i))
		case k < 84:
			c.Ops = append(c.Ops, wire.Op{K: "close"})
		case k < 92:
			// the same loggers are asked for by several goroutines at the same time
			p := wire.Op{K: "par"}
			for g := flat(t, 2, 6); g > 0; g-- {
				var l []wire.Op
				for j := flat(t, 1, 4); j > 0; j-- {
					if chance(t, 50) {
						l = append(l, wire.Op{K: "outputs", Name: pick(t, ask...)})
					} else {
						l = append(l, get(pick(t, ask...)))
					}
				}
				p.Par = append(p.Par, l)
			}
			c.Ops = append(c.Ops, p)
		case k < 97:
			// everybody logs
			for _, n := range subset(t, append(nm, "root"), 2, 9) {
				c.Ops = append(c.Ops, get(n), wire.Op{K: "log", L: slots[n], M: "Critical", Args: []wire.Val{{T: "s", S: token(tok)}}})
				tok++
			}
		default:
			c.Ops = append(c.Ops, get(pick(t, nm...)), wire.Op{K: "outputs", Name: pick(t, nm...)})
		}
	}
	c.Ops = append(c.Ops, wire.Op{K: "close"})
	return c
}

// builtin is the configuration without one.
var builtin = &wire.Cfg{
	Formats: []map[string]string{{"type": "text", "name": "f1", "layout": "%{time}|%{level:-5s}|%{pid:6d}|%{module} >> %{msg} (%{longfunc}@%{longpkg}/%{shortfile}:%{line}) \n"}},
	Outputs: []map[string]string{{"type": "console", "name": "c1", "format": "f1"}},
	Loggers: []wire.CfgLogger{{Name: "root", Level: "all", Outs: []string{"c1"}}},
}

type creator struct {
	ok  bool
	tag string // "" for built-in ones
}

// builder is the reference of what may be built.
type builder struct {
	outs, fmts map[string]creator
	cfg        *wire.Cfg
	epoch      int
	built      map[string]int // name to identity of the output, this configuration
	fmtOf      map[string]int // name to identity of the format
	custom     map[string]bool
	owner      map[int]string // identity to "epoch:name"
	fowner     map[int]string
	set        map[int]int // formatter of an output
	shut       map[int]int
	own        []int // outputs built by own creators, in all configurations
	cur        map[int]bool
}

func (b *builder) canFmt(n string) bool {
	f := byName(b.cfg.Formats, n)
	if f == nil {
		return false
	}
	c, ok := b.fmts[f["type"]]
	if !ok {
		return false
	}
	if _, ok := b.fmtOf[n]; ok {
		return true
	}
	return c.ok && (c.tag != "" || hasField(f["layout"]))
}

func (b *builder) canOut(n string) bool {
	o := byName(b.cfg.Outputs, n)
	if o == nil || !b.canFmt(o["format"]) {
		return false
	}
	c, ok := b.outs[o["type"]]
	if !ok {
		return false
	}
	if _, ok := b.built[n]; ok {
		return true
	}
	return c.ok
}

func (b *builder) events(evs []wire.Ev) error {
	for _, e := range evs {
		switch e.E {
		case "newout":
			d := byName(b.cfg.Outputs, e.Name)
			if d == nil {
				return fmt.Errorf("output %q is built, which the configuration does not have", e.Name)
			}
			if id, ok := b.built[e.Name]; ok {
				return fmt.Errorf("output %q is built again (first as instance %d)", e.Name, id)
			}
			if b.epoch > 0 && !sameAttrs(e.Attr, d) {
				return fmt.Errorf("output %q is built from %v, configured is %v", e.Name, e.Attr, d)
			}
			if c := b.outs[d["type"]]; c.tag != e.C {
				return fmt.Errorf("output %q of type %q is built by creator %q, registered last was %q", e.Name, d["type"], e.C, c.tag)
			}
			b.built[e.Name] = e.ID
			b.custom[e.Name] = true
			b.owner[e.ID] = fmt.Sprintf("%d:%s", b.epoch, e.Name)
			b.own = append(b.own, e.ID)
			b.cur[e.ID] = true
		case "newfmt":
			d := byName(b.cfg.Formats, e.Name)
			if d == nil {
				return fmt.Errorf("format %q is built, which the configuration does not have", e.Name)
			}
			if id, ok := b.fmtOf[e.Name]; ok {
				return fmt.Errorf("format %q is built again (first as instance %d)", e.Name, id)
			}
			if b.epoch > 0 && !sameAttrs(e.Attr, d) {
				return fmt.Errorf("format %q is built from %v, configured is %v", e.Name, e.Attr, d)
			}
			if c := b.fmts[d["type"]]; c.tag != e.C {
				return fmt.Errorf("format %q of type %q is built by creator %q, registered last was %q", e.Name, d["type"], e.C, c.tag)
			}
			b.fmtOf[e.Name] = e.F
			b.fowner[e.F] = fmt.Sprintf("%d:%s", b.epoch, e.Name)
		case "setfmt":
			b.set[e.ID] = e.F
			at, ok := b.owner[e.ID]
			if !ok || !b.cur[e.ID] {
				continue
			}
			n := at[strings.Index(at, ":")+1:]
			fn := byName(b.cfg.Outputs, n)["format"]
			f, ok := b.fmtOf[fn]
			if !ok {
				// a built-in one shows itself here first
				if o, ok := b.fowner[e.F]; ok {
					return fmt.Errorf("output %q is given the formatter of %s, not of %q", n, o, fn)
				}
				b.fmtOf[fn] = e.F
				b.fowner[e.F] = fmt.Sprintf("%d:%s", b.epoch, fn)
			} else if f != e.F {
				return fmt.Errorf("output %q is given formatter %d (%s), its format %q is formatter %d", n, e.F, b.fowner[e.F], fn, f)
			}
		case "send":
			f, ok := b.set[e.ID]
			if !ok {
				return fmt.Errorf("output %s receives a message before it is given a formatter", b.owner[e.ID])
			}
			if f != e.F {
				return fmt.Errorf("output %s formats with formatter %d, given was %d", b.owner[e.ID], e.F, f)
			}
			if _, ok := b.owner[e.ID]; !ok {
				return fmt.Errorf("instance %d, which was never built, receives a message", e.ID)
			}
		case "close":
			b.shut[e.ID]++
		}
	}
	return nil
}

func sameAttrs(a, b map[string]string) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// outputs judges what GetLoggerOutputs returned.
func (b *builder) outputs(x *X, o *wire.Op, res *wire.Res) error {
	var l *wire.CfgLogger
	for i := range b.cfg.Loggers {
		if b.cfg.Loggers[i].Name == o.Name {
			l = &b.cfg.Loggers[i]
		}
	}
	bad := ""
	if l == nil {
		bad = "it is not configured"
	} else {
		for _, n := range l.Outs {
			if !b.canOut(n) {
				bad = fmt.Sprintf("its output %q cannot be built", n)
			}
		}
	}
	if bad != "" {
		x.Class("request fails")
		if res.Err == "" {
			return fmt.Errorf("no error for logger %q, but %s", o.Name, bad)
		}
		return nil
	}
	if res.Err != "" {
		return fmt.Errorf("logger %q: %s", o.Name, res.Err)
	}
	x.Class("request succeeds")
	if w := levelOf(l.Level); res.Lvl != w {
		return fmt.Errorf("logger %q: level %d, configured is %q", o.Name, res.Lvl, l.Level)
	}
	if len(res.IDs) != len(l.Outs) {
		return fmt.Errorf("logger %q: %d outputs, configured are %v", o.Name, len(res.IDs), l.Outs)
	}
	for i, n := range l.Outs {
		id, ok := b.built[n]
		if !ok {
			if at, ok := b.owner[res.IDs[i]]; ok {
				return fmt.Errorf("logger %q: output %d is %s, configured is %q", o.Name, i, at, n)
			}
			b.built[n] = res.IDs[i]
			b.owner[res.IDs[i]] = fmt.Sprintf("%d:%s", b.epoch, n)
		} else if id != res.IDs[i] {
			return fmt.Errorf("logger %q: output %d is instance %d (%s), %q was built as instance %d", o.Name, i, res.IDs[i], b.owner[res.IDs[i]], n, id)
		}
	}
	return nil
}

func checkBuild(x *X, c *wire.Case) error {
	r := x.Run("plain", c)
	if err := r.Crash(); err != nil {
		return err
	}
	b := &builder{outs: map[string]creator{"cap": {true, "cap"}, "bad": {false, "bad"}}, fmts: map[string]creator{"capf": {true, "capf"}, "badf": {false, "badf"}, "text": {true, ""}},
		cfg: builtin, built: map[string]int{}, fmtOf: map[string]int{}, custom: map[string]bool{}, owner: map[int]string{}, fowner: map[int]string{}, set: map[int]int{}, shut: map[int]int{}, cur: map[int]bool{}}
	for _, s := range []string{"console", "memory", "size_rolling_file", "time_rolling_file", "syslog"} {
		b.outs[s] = creator{true, ""}
	}
	shared := map[int]map[string]bool{}
	for i := range c.Ops {
		o, res := &c.Ops[i], r.Op[i]
		fail := func(err error) error { return fmt.Errorf("op %d (%s %s): %w", i, o.K, o.Name, err) }
		switch o.K {
		case "reg":
			switch o.M {
			case "out":
				b.outs[o.Name] = creator{true, o.Ext}
			case "outerr":
				b.outs[o.Name] = creator{false, o.Ext}
			case "fmt":
				b.fmts[o.Name] = creator{true, o.Ext}
			case "fmterr":
				b.fmts[o.Name] = creator{false, o.Ext}
			}
			x.Class("registration")
		case "setcfg", "loadcfg":
			if res.Err == "" {
				b.cfg = o.Cfg
				b.epoch++
				b.built, b.fmtOf, b.custom, b.cur = map[string]int{}, map[string]int{}, map[string]bool{}, map[int]bool{}
				x.Class("configuration accepted")
			} else {
				x.Class("configuration refused")
			}
		}
		before := map[int]int{}
		for id, n := range b.shut {
			before[id] = n
		}
		if err := b.events(res.Evs); err != nil {
			return fail(err)
		}
		switch o.K {
		case "outputs":
			if err := b.outputs(x, o, res); err != nil {
				return fail(err)
			}
		case "par":
			x.Class("requests at the same time")
			var subs []*wire.Res
			for j := range r.Res {
				if s := &r.Res[j]; s.Op == i && s.Thr > 0 {
					subs = append(subs, s)
				}
			}
			sort.SliceStable(subs, func(a, b int) bool { return subs[a].A < subs[b].A })
			for _, s := range subs {
				if q := &o.Par[s.Thr-1][s.Sub]; q.K == "outputs" {
					if err := b.outputs(x, q, s); err != nil {
						return fail(err)
					}
				}
			}
		case "close":
			for _, id := range b.own {
				if b.cur[id] && b.shut[id] == before[id] {
					return fail(fmt.Errorf("output %s (instance %d) is not closed", b.owner[id], id))
				}
				if b.shut[id] == 0 {
					return fail(fmt.Errorf("output %s (instance %d) of an earlier configuration was never closed", b.owner[id], id))
				}
			}
		case "log":
			for _, e := range res.Evs {
				if e.E == "send" {
					if shared[e.ID] == nil {
						shared[e.ID] = map[string]bool{}
					}
					shared[e.ID][e.Log] = true
				}
			}
		}
	}
	for _, m := range shared {
		if len(m) > 1 {
			x.Class("output used by several loggers")
		}
	}
	if len(b.own) > 0 {
		x.Class("own output built")
	}
	x.NonTrivial(len(b.own) > 0)
	return nil
}

func init() {
	add(Prop{ID: "C25", Rule: "creators (working and failing) registered and replaced for own and built-in types, configurations with free attributes in Go or JSON form, some refused, " +
		"lookups and GetLoggerOutputs in any order and by several goroutines at once, messages, Close at any point; the calls seen by creators, formatters and outputs are compared with the reference. " +
		"Non-trivial: at least one output built by an own creator."}, genBuild, checkBuild)
}
