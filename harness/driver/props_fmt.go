package driver

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

var fieldKeys = []string{"k", "u", "user", "Id7", "ID7", "9", "msg", "pid", "time", "lvl", "id", "callpath", "extend", "Msg", "MSG", "msgs", "Pid", "LEVEL", "times", "m", "line1", "__caller_info", "", "a b", "line", "shortfile", "longfunc"}

var trickyTexts = []string{"", "x", " ", "plain text", "100%", "%d", "%s %v", "%!", "%{msg}", "%{k}", "%{", "}", "a}b", "{\"k\":1}", "\n", "two\nlines\n", "tab\there", "é日本", "\\", "\\n", "'\"`", "%%", "%{time:2006}", "$1 \\1", "<nil>", "\x00\x01"}

// value draws an operand or field value.
func value(t *rapid.T, mutable bool) wire.Val {
	switch flat(t, 0, 13) {
	case 0, 1, 2, 3:
		if chance(t, 2) {
			return wire.Val{T: "rep", S: pick(t, "x", "long ", "%d", "é", "ab\n"), I: int64(pick(t, 30, 100, 500, 1000, 5000, 30000))}
		}
		if chance(t, 10) {
			return wire.Val{T: "hex", S: hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes"))}
		}
		if chance(t, 15) {
			return wire.Val{T: "s", S: strings.ToValidUTF8(rapid.String().Draw(t, "s"), "?")}
		}
		return wire.Val{T: "s", S: pick(t, trickyTexts...)}
	case 4, 5:
		return wire.Val{T: pick(t, "i", "i64"), I: pick[int64](t, 0, 1, -1, 42, 1<<40, -1<<63)}
	case 6:
		return wire.Val{T: "u8", I: int64(flat(t, 0, 255))}
	case 7:
		return wire.Val{T: "f", F: pick(t, 0, 1.5, -2.25, 1e21, 0.1)}
	case 8:
		return wire.Val{T: "b", I: int64(flat(t, 0, 1))}
	case 9:
		return wire.Val{T: "err", S: pick(t, trickyTexts...)}
	case 10:
		return wire.Val{T: "dur", I: int64(flat(t, 0, 5000000))}
	case 11:
		if mutable {
			return wire.Val{T: pick(t, "mby", "mpair", "mmap"), I: int64(flat(t, 0, 9)), S: pick(t, "abc", "%d", "x")}
		}
		return wire.Val{T: pick(t, "by", "r"), S: pick(t, "abc", "%d", ""), I: int64(flat(t, 32, 300))}
	case 12:
		return wire.Val{T: pick(t, "pair", "ppair", "name"), S: pick(t, trickyTexts...), I: int64(flat(t, 0, 9))}
	}
	if chance(t, 50) {
		return wire.Val{T: pick(t, "both", "fmtr", "gostr", "panics", "nilp", "nilerr"), S: pick(t, trickyTexts...)}
	}
	if chance(t, 50) {
		return wire.Val{T: "l", L: []wire.Val{{T: "i", I: 1}, {T: "s", S: pick(t, trickyTexts...)}}}
	}
	return wire.Val{T: "nil"}
}

func values(t *rapid.T, lo, hi int, mutable bool) []wire.Val {
	var r []wire.Val
	for i := flat(t, lo, hi); i > 0; i-- {
		r = append(r, value(t, mutable))
	}
	return r
}

// message fills in format and operands of a log op.
func message(t *rapid.T, o *wire.Op, mutable bool) {
	if !strings.HasSuffix(o.M, "f") {
		o.Args = values(t, 0, pick(t, 4, 4, 4, 4, 4, 4, 4, 4, 4, 12), mutable)
		return
	}
	k := flat(t, 0, 4)
	if chance(t, 30) {
		k = 0
	}
	if k == 0 {
		o.Fmt = strings.ToValidUTF8(strings.Join([]string{pick(t, trickyTexts...), pick(t, trickyTexts...)}, pick(t, "", " ")), "?")
		return
	}
	verbs := []string{"%v", "%v", "%+v", "%s", "%d", "%q", "%x", "%T", "%5v", "%-8v|", "%#v", "%%%v", "%[1]v", "%*d", "%z", "%"}
	for i := 0; i < k; i++ {
		o.Fmt += pick(t, "", "x", " ", ": ", "é", "%% ") + pick(t, verbs...)
	}
	o.Args = values(t, 1, k+1, mutable)
	for i := range o.Args {
		// addresses differ between processes
		if strings.HasSuffix(o.Args[i].T, "pair") && o.Args[i].T != "pair" {
			o.Args[i].T = "pair"
		}
	}
	if o.Fmt == "" {
		o.Fmt = "%v"
	}
	// pointers and maps print the same everywhere only with plain verbs
}

var textSpecs = []string{"s", "-10s", "10s", ".3s", "q", "x", "X", "v", "+v", "#v", "-5.2s", "T", "d", "5", "s items", "d%%", "03s", "s %s", "[1]s", "s:", "s%{", "s:%d"}
var intSpecs = []string{"d", "06d", "x", "8d", "-8d", "+d", "b", "c", "v", "T", "s", "X", "o", "d/%d"}
var timeSpecs = []string{"2006-01-02", "15:04:05.000000", "Jan _2 15:04 MST", "Monday", "x", "2006-01-02T15:04:05.999Z-07:00", "06", "15h04m", "Z07:00", "3PM%d", "2006/01/02 %s", ".000", "s"}

// layout draws the parts of a layout that has exactly one reading.
func layout(t *rapid.T, verbs []string, fields bool) string {
	lits := []string{"", "", " ", "x", "%", "%%", "{", "}", "%{}", "%{ msg}", "%{a-b}", "%{_x}", "%{é}", "é日本", "\n", "\t", "\\", ":", "%d", "%s", "$1", "${msg}", "%msg", "{msg}", "%{%", "[", "] ", "\"", " | ", "a}b", "%{}{}", "\x00"}
	var parts []part
	k := flat(t, 1, 6)
	if !fields {
		k = 0
	}
	if fields && chance(t, 3) {
		k = flat(t, 7, 40)
	}
	lit := func() {
		if chance(t, 2) {
			parts = append(parts, part{Lit: strings.Repeat(pick(t, "x", "- ", "%", "é", "\n"), pick(t, 20, 64, 200, 1100, 5000))})
		}
		for i := flat(t, 0, 2); i > 0; i-- {
			parts = append(parts, part{Lit: pick(t, lits...)})
		}
	}
	lit()
	if !fields {
		lit()
		lit()
	}
	for i := 0; i < k; i++ {
		p := part{IsVar: true, Verb: pick(t, verbs...)}
		if chance(t, 45) {
			switch p.Verb {
			case "time":
				p.Spec = pick(t, timeSpecs...)
			case "pid", "line":
				p.Spec = pick(t, intSpecs...)
			default:
				p.Spec = pick(t, textSpecs...)
				if chance(t, 30) {
					p.Spec = pick(t, intSpecs...)
				}
			}
		}
		parts = append(parts, p)
		lit()
	}
	join := func(ps []part) string {
		var b strings.Builder
		for _, p := range ps {
			switch {
			case !p.IsVar:
				b.WriteString(p.Lit)
			case p.Spec != "":
				b.WriteString("%{" + p.Verb + ":" + p.Spec + "}")
			default:
				b.WriteString("%{" + p.Verb + "}")
			}
		}
		return b.String()
	}
	merge := func(ps []part) []part {
		var r []part
		for _, p := range ps {
			if !p.IsVar && p.Lit == "" {
				continue
			}
			if !p.IsVar && len(r) > 0 && !r[len(r)-1].IsVar {
				r[len(r)-1].Lit += p.Lit
				continue
			}
			r = append(r, p)
		}
		return r
	}
	want := merge(parts)
	if !reflect.DeepEqual(scan(join(parts)), want) && len(want) > 0 {
		// read otherwise than it was made: keep only harmless literals
		for i := range parts {
			if !parts[i].IsVar && strings.ContainsAny(parts[i].Lit, "%{}:") {
				parts[i].Lit = "-"
			}
			if strings.ContainsAny(parts[i].Spec, "{}") {
				parts[i].Spec = "v"
			}
		}
	}
	return join(parts)
}

var plainVerbs = []string{"msg", "msg", "msg", "time", "level", "lvl", "module", "pid", "program", "k", "u", "user", "Id7", "ID7", "9", "id", "callpath", "extend", "Msg", "MSG", "msgs", "Pid", "LEVEL", "times", "m", "line1", "nosuch"}

func fieldsOf(t *rapid.T) []wire.Field {
	var r []wire.Field
	hi := 5
	if chance(t, 5) {
		hi = 30
	}
	for i := flat(t, 0, hi); i > 0; i-- {
		v := value(t, false)
		if v.T == "ppair" { // an address with some verbs
			v.T = "pair"
		}
		k := pick(t, fieldKeys...)
		if hi > 5 && chance(t, 70) {
			k = fmt.Sprintf("f%d", flat(t, 0, 99))
		}
		r = append(r, wire.Field{Key: k, Val: v})
	}
	return r
}

// rig is a configuration of outputs for nested loggers.
type rig struct {
	types   []string
	layout  func() string
	async   int // per cent
	thr     func() (string, bool)
	maxOuts int
	capf    int
}

func (g *rig) cfg(t *rapid.T, nm []string) *wire.Cfg {
	c := &wire.Cfg{}
	nf := flat(t, 1, 3)
	for i := 0; i < nf; i++ {
		c.Formats = append(c.Formats, map[string]string{"name": fmt.Sprintf("f%d", i), "type": "text", "layout": g.layout()})
		if chance(t, g.capf) {
			c.Formats[i]["type"] = "capf"
		}
	}
	var on []string
	console := false
	for i := flat(t, 1, g.maxOuts); i > 0; i-- {
		id := len(on)
		o := map[string]string{"name": fmt.Sprintf("o%d", id), "format": fmt.Sprintf("f%d", flat(t, 0, nf-1)), "type": pick(t, g.types...)}
		switch o["type"] {
		case "console":
			if console {
				o["type"] = g.types[0]
				if o["type"] == "console" {
					continue
				}
			}
		case "syslog":
			o["prefix"] = fmt.Sprintf("tag%d", id)
		}
		console = console || o["type"] == "console"
		if strings.HasSuffix(o["type"], "_rolling_file") {
			o["file"] = fmt.Sprintf("log/x%d.log", id)
			o["size"], o["pattern"] = "10M", "2006"
		}
		if o["type"] == "console" || o["file"] != "" {
			if chance(t, g.async) {
				o["async"] = "true"
				if chance(t, 40) {
					o["queue_size"] = fmt.Sprint(flat(t, 1, 4))
				}
				if chance(t, 60) {
					o["batch_num"] = fmt.Sprint(flat(t, 1, 5))
				}
			}
		}
		if g.thr != nil && o["type"] != "memory" && o["type"] != "cap" {
			if s, ok := g.thr(); ok {
				o["threshold"] = s
			}
		}
		c.Outputs = append(c.Outputs, o)
		on = append(on, o["name"])
	}
	c.Loggers = append(c.Loggers, wire.CfgLogger{Name: "root", Level: "all", Outs: subset(t, on, 1, len(on))})
	for _, x := range nm {
		if x == "root" || x == "" || !chance(t, 55) {
			continue
		}
		l := wire.CfgLogger{Name: x, Level: pick(t, "", "", "trace", "ALL")}
		if l.Outs = subset(t, on, 0, 3); len(l.Outs) == 0 {
			l.Outs = nil
		}
		c.Loggers = append(c.Loggers, l)
	}
	return c
}

// open configures, looks the loggers up and asks for the outputs.
func open(c *wire.Case, cf *wire.Cfg, nm []string) {
	c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
	for i, x := range nm {
		c.Ops = append(c.Ops, wire.Op{K: "get", L: i, Name: x})
	}
	for _, l := range cf.Loggers {
		c.Ops = append(c.Ops, wire.Op{K: "outputs", Name: l.Name, Outs: l.Outs})
	}
}

func shut(c *wire.Case) { c.Ops = append(c.Ops, wire.Op{K: "close"}, wire.Op{K: "mem"}) }

// rendered compares what capturing outputs rendered.
func (h *history) rendered() error {
	for _, p := range h.hops {
		if err := p.exactRefs(); err != nil {
			return err
		}
		for _, e := range p.sends {
			d := p.def(h, e)
			if d == nil {
				continue
			}
			if want := renderBy(p.cfg, d["format"], h.event(p)); want != string(e.B) {
				return fmt.Errorf("%v: layout %q rendered %q, not %q", p, byName(p.cfg.Formats, d["format"])["layout"], e.B, want)
			}
		}
	}
	return nil
}

// target of an output: file, memory or the console.
func (h *history) target(r *Result, tree Tree, d map[string]string, epoch int) (string, bool) {
	switch {
	case d["file"] != "":
		return string(tree[d["file"]].Data), true
	case d["type"] == "console":
		return string(r.Out), true
	case d["type"] == "memory":
		id, ok := h.memID[fmt.Sprintf("e%d:%s", epoch, d["name"])]
		if !ok {
			return "", false
		}
		for _, res := range r.Op {
			for _, e := range res.Evs {
				if e.E == "mem" && e.ID == id {
					return string(e.B), true
				}
			}
		}
	}
	return "", false
}

// exactStreams compares the whole content of every output of the only
// configuration with the messages that were to go there.
func (h *history) exactStreams(loc bool) error {
	tree := ReadTree(h.r.Dir)
	cfg := h.m.cfg
	for _, d := range cfg.Outputs {
		var want strings.Builder
		for _, p := range h.hops {
			for i := range p.want {
				if p.defs[i] != nil && p.defs[i]["name"] == d["name"] && p.lvl >= threshold(d) {
					want.WriteString(renderBy(cfg, d["format"], h.event(p)))
				}
			}
		}
		if got, ok := h.target(h.r, tree, d, h.m.epoch); ok && got != want.String() {
			return fmt.Errorf("output %v with format %v: %s", d, byName(cfg.Formats, d["format"]), diff(got, want.String()))
		}
	}
	return nil
}

func genC06(t *rapid.T) wire.Case {
	c := wire.Case{Bubble: true, TZ: pick(t, "UTC", "Europe/Berlin", "Asia/Kolkata", "America/St_Johns")}
	c.Start = 1500000000 + int64(flat(t, 0, 300000000))
	if chance(t, 20) {
		c.Argv0 = pick(t, "prog", "/usr/local/bin/my prog", "./a%d", "dir/%{msg}", "x.test")
	}
	cf := &wire.Cfg{}
	nl := flat(t, 1, 5)
	var nm []string
	for i := 0; i < nl; i++ {
		cf.Formats = append(cf.Formats, map[string]string{"name": fmt.Sprintf("f%d", i), "type": "text", "layout": layout(t, plainVerbs, !chance(t, 12))})
		cf.Outputs = append(cf.Outputs, map[string]string{"name": fmt.Sprintf("o%d", i), "type": "cap", "format": fmt.Sprintf("f%d", i)})
		x := fmt.Sprintf("%s%d", pick(t, "a", "a/b.c", "a%d", "%{msg}", "é", "x y"), i)
		if chance(t, 5) {
			x = strings.Repeat(pick(t, "x", "a/", "b.", "é"), pick(t, 20, 33, 64, 128, 300)) + x
		}
		nm = append(nm, x)
		l := wire.CfgLogger{Name: x, Level: "all", Outs: []string{fmt.Sprintf("o%d", i)}}
		if k := flat(t, 0, 2*nl); k < i && hasField(cf.Formats[k]["layout"]) && hasField(cf.Formats[i]["layout"]) {
			l.Outs = append(l.Outs, fmt.Sprintf("o%d", k))
		}
		cf.Loggers = append(cf.Loggers, l)
	}
	open(&c, cf, nm)
	w := 0
	for i := flat(t, 2, 10); i > 0; i-- {
		if chance(t, 25) {
			c.Ops = append(c.Ops, wire.Op{K: "sleep", D: int64(flat(t, 1, 1<<31))})
		}
		s := flat(t, 0, nl-1)
		o := wire.Op{K: "log", L: s}
		o.M, o.Lvl = method(t)
		message(t, &o, false)
		if chance(t, 60) {
			w++
			c.Ops = append(c.Ops, wire.Op{K: "mkwriter", L: s, W: w, M: pick(t, "fields", "ctx"), Fields: fieldsOf(t)})
			o.W = w
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func genC07(t *rapid.T) wire.Case {
	c := wire.Case{}
	if chance(t, 30) {
		c.Procs = 1
	}
	nm := names(t, 1, 4)
	g := rig{types: []string{"memory", "cap", "size_rolling_file", "time_rolling_file", "console"}, async: 60, maxOuts: 4, layout: func() string {
		return pick(t, "", "[%{k}] ", "%{u:q}", "%{lvl}:") + "%{msg}" + pick(t, "", "|%{k}", "|%{user:v}|%{u}", "|%{Id7}", " %{9:+v}") + pick(t, "\n", ";", "\n--\n")
	}}
	cf := g.cfg(t, nm)
	open(&c, cf, nm)
	w := 0
	ws := map[int]int{}
	for i := flat(t, 2, 25); i > 0; i-- {
		s := flat(t, 0, len(nm)-1)
		if chance(t, 35) {
			w++
			ws[w] = s
			c.Ops = append(c.Ops, mkWriter(s, w, pick(t, "fields", "fields", "fields", "ctx", "ctx", "ctx", "cancel", "nil"), fieldsOf(t)))
		}
		o := wire.Op{K: "log", L: s}
		o.M, o.Lvl = method(t)
		message(t, &o, true)
		if w > 0 && chance(t, 65) {
			o.W = flat(t, 1, w)
			o.L = ws[o.W]
		}
		c.Ops = append(c.Ops, o)
		if chance(t, 5) {
			c.Ops = append(c.Ops, wire.Op{K: "gosched", N: 3})
		}
	}
	shut(&c)
	return c
}

var callerVerbs = []string{"line", "longfile", "shortfile", "longpkg", "shortpkg", "longfunc", "shortfunc"}

func genC08(t *rapid.T) wire.Case {
	c := wire.Case{}
	nm := names(t, 1, 5)
	cfgs := pick(t, 0, 0, 0, 1, 2)
	g := rig{types: []string{"memory", "cap", "size_rolling_file", "time_rolling_file", "console"}, async: 50, maxOuts: 4, capf: 10, layout: func() string {
		l := "%{msg}"
		for i := flat(t, 0, 4); i > 0; i-- {
			l += " %{" + pick(t, callerVerbs...) + pick(t, "", "", ":v", ":8v", ":q") + "}"
		}
		if chance(t, 20) {
			l += "%{module}"
		}
		return l + "\n"
	}}
	if cfgs > 0 {
		g.capf = 0 // its lines have no end
	}
	cf := g.cfg(t, nm)
	open(&c, cf, nm)
	w := 0
	ws := map[int]int{}
	skip := map[string]int{}
	var used []string // outputs some logger of the only configuration lists
	for _, l := range cf.Loggers {
		for _, o := range l.Outs {
			if !contains(used, "$"+o) {
				used = append(used, "$"+o)
			}
		}
	}
	for i := flat(t, 2, 25); i > 0; i-- {
		s := flat(t, 0, len(nm)-1)
		if cfgs > 0 && chance(t, 15) {
			cfgs--
			used = nil
			cf = g.cfg(t, nm)
			open(&c, cf, nm)
		}
		if cfgs == 0 && used != nil && chance(t, 10) {
			lo := 0
			if norm(nm[s]) == "root" {
				lo = 1
			}
			c.Ops = append(c.Ops, wire.Op{K: "setouts", L: s, Outs: subset(t, used, lo, 3)})
		}
		if chance(t, 20) {
			w++
			ws[w] = s
			c.Ops = append(c.Ops, wire.Op{K: "mkwriter", L: s, W: w, M: pick(t, "fields", "ctx"), Fields: append(fieldsOf(t), wire.Field{Key: "k", Val: wire.Val{T: "i", I: 1}})})
		}
		if chance(t, 12) {
			k := flat(t, 0, 4)
			if chance(t, 8) {
				k = flat(t, 5, 80)
			}
			skip[norm(nm[s])] = k
			c.Ops = append(c.Ops, wire.Op{K: "skip", L: s, N: k})
		}
		o := logTok(t, s, i)
		if w > 0 && chance(t, 45) {
			o.W = flat(t, 1, w)
			o.L = ws[o.W]
		}
		o.Trace = true
		o.Site = flat(t, 0, 11)
		o.Depth = flat(t, 0, 3)
		if k := skip[norm(nm[o.L])]; o.Depth < k {
			o.Depth = k
		}
		c.Ops = append(c.Ops, o)
	}
	shut(&c)
	return c
}

func init() {
	add(Prop{
		ID:   "C06",
		Rule: "layouts built from literals (with %, braces, non-ASCII, things that almost are fields) and fields with and without specs, applied to messages with random operands, fields, levels, logger names, program names, times and time zones; the bytes rendered are compared with an independent renderer, layouts without a field must be rejected; non-trivial: a layout with a literal, a spec and several fields rendered a message",
	}, genC06, func(x *X, c *wire.Case) error {
		r := x.Run("plain", c)
		h, err := play(c, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
			if o.K != "outputs" {
				return nil
			}
			l := byName(h.m.cfg.Formats, "f"+o.Name[len(o.Name)-1:])["layout"]
			if has := hasField(l); has != (res.Err == "") {
				return fmt.Errorf("layout %q, with a field: %v, gives %q when the output is built", l, has, res.Err)
			} else if !has {
				x.Class("layout without field")
			}
			return nil
		})
		if err != nil {
			return err
		}
		for _, p := range h.hops {
			for _, e := range p.sends {
				d := p.def(h, e)
				if d == nil {
					continue
				}
				l := byName(p.cfg.Formats, d["format"])["layout"]
				if want := render(l, h.event(p)); want != string(e.B) {
					return fmt.Errorf("%v: layout %q rendered %q, not %q", p, l, e.B, want)
				}
				nf, spec, lit := 0, false, false
				for _, q := range scan(l) {
					if q.IsVar {
						nf++
						x.Class("verb:%s", q.Verb)
						spec = spec || q.Spec != ""
					} else {
						lit = true
					}
				}
				x.NonTrivial(nf > 1 && spec && lit)
			}
		}
		return nil
	})

	add(Prop{
		ID:   "C07",
		Rule: "messages with operands of many types (some changed by the application right after the call) through loggers and interleaved WithFields/WithCtx writers, with own and inherited, synchronous and asynchronous outputs; every output's whole content is compared with the reference rendering; non-trivial: a writer with fields and another writer both logged to one output whose layout shows fields",
	}, genC07, func(x *X, c *wire.Case) error {
		r := x.Run("plain", c)
		h, err := play(c, r, nil)
		if err != nil {
			return err
		}
		if err := h.rendered(); err != nil {
			return err
		}
		for _, p := range h.hops {
			for _, e := range p.sends {
				if string(e.Msg) != p.text {
					return fmt.Errorf("%v: the message is %q, not %q", p, e.Msg, p.text)
				}
			}
		}
		if err := h.exactStreams(false); err != nil {
			return err
		}
		with, without := false, false
		for _, p := range h.hops {
			with = with || p.o.W > 0 && len(h.fields[p.op]) > 0
			without = without || p.o.W == 0
			x.Class("method:%s writer:%v", p.o.M, p.o.W > 0)
			for _, a := range p.o.Args {
				x.Class("operand:%s", a.T)
			}
		}
		x.NonTrivial(with && without)
		return nil
	})

	add(Prop{
		ID:   "C08",
		Rule: "all 13 methods on loggers and writers, from functions, methods of another package, closures (of functions, methods and closures), deferred calls, generic functions and methods, promoted methods, inlined functions and method values, below up to three more frames, with SetCallerSkip, own outputs and outputs inherited over several generations, mixed layouts, synchronous and asynchronous; caller verbs are compared with the stack the call site itself recorded; non-trivial: a caller verb was rendered for an inherited output or a skip",
	}, genC08, func(x *X, c *wire.Case) error {
		r := x.Run("plain", c)
		h, err := play(c, r, nil)
		if err != nil {
			return err
		}
		if err := h.rendered(); err != nil {
			return err
		}
		if h.m.epoch > 1 {
			err = h.compare(h.streams())
		} else {
			err = h.exactStreams(true)
		}
		if err != nil {
			return err
		}
		for _, p := range h.hops {
			for _, d := range p.defs {
				l := byName(p.cfg.Formats, d["format"])
				if l["type"] != "text" || !strings.Contains(l["layout"], "line") && !strings.Contains(l["layout"], "long") && !strings.Contains(l["layout"], "short") {
					continue
				}
				lc := listed(p.cfg, p.name)
				inherited := lc == nil || len(lc.Outs) == 0
				x.Class("method:%s site:%d", p.o.M, p.o.Site)
				x.Class("skip:%d inherited:%v async:%v writer:%v", p.skip, inherited, d["async"] == "true", p.o.W > 0)
				x.NonTrivial(inherited || p.skip > 0)
			}
		}
		return nil
	})
}
