package driver

import (
	"fmt"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C29: what a call is given is used only by calls that emit, and only while
// they run; a call that emits nothing leaves everything as it was.

func genC29(t *rapid.T) wire.Case {
	c := wire.Case{}
	async := 60
	if chance(t, 40) {
		// synchronous, with a look at the files after each step
		async = 0
		c.Bubble, c.Start, c.Snap = true, 1.6e9, "log"
	}
	if chance(t, 20) {
		c.Procs = 1
	}
	nm := names(t, 1, 5)
	types := []string{"size_rolling_file", "time_rolling_file", "memory", "cap", "console", "size_rolling_file"}
	if !c.Bubble {
		types = append(types, "syslog")
		c.Syslog = 1
	}
	g := rig{types: types, async: async, maxOuts: 4, layout: func() string {
		return pick(t, "", "[%{k}] ", "%{u:q}", "%{lvl}:", "%{line}") + pick(t, "%{msg}", "%{msg}", "%{msg:q}", "%{k}", "%{level}") + pick(t, "", "|%{k}", "|%{user:v}|%{u}", "%{msg}") + pick(t, "\n", ";")
	}, thr: func() (string, bool) {
		return levelText(t, flat(t, wire.All, wire.Off)), chance(t, 60)
	}}
	cf := g.cfg(t, nm)
	for _, o := range cf.Outputs {
		if c.Snap != "" && o["file"] != "" {
			o["size"], o["pattern"] = pick(t, "1", "40", "200", "10M"), pick(t, "2006", "20060102150405", "2006-01-02T15-04")
			o["backups"] = pick(t, "1", "3", "20")
			if chance(t, 20) {
				o["archive"] = pick(t, "zip", "gzip")
			}
		}
	}
	open(&c, cf, nm)
	id := int64(0)
	val := func() wire.Val {
		if chance(t, 55) {
			id++
			return wire.Val{T: "probe", I: id, S: pick(t, "str", "str", "err", "fmt", "go", "ptr")}
		}
		v := value(t, false)
		if v.T == "ppair" {
			v.T = "pair"
		}
		return v
	}
	log := func(s int) wire.Op {
		o := wire.Op{K: "log", L: s}
		o.M, o.Lvl = method(t)
		k := flat(t, 0, 4)
		for i := 0; i < k; i++ {
			o.Args = append(o.Args, val())
		}
		if strings.HasSuffix(o.M, "f") {
			o.Fmt = pick(t, "x", "")
			for i := flat(t, k-1, k+1); i > 0; i-- {
				o.Fmt += pick(t, "%v", "%s", "%d", "%#v", "%+v", "%q", "%x", "%5v", "%T", "%[1]v", "%*v")
			}
			if o.Fmt == "" {
				o.Fmt = "%v"
			}
		}
		return o
	}
	ws := map[int]int{}
	w := 0
	for i := flat(t, 3, 25); i > 0; i-- {
		s := flat(t, 0, len(nm)-1)
		switch flat(t, 0, 9) {
		case 0:
			c.Ops = append(c.Ops, wire.Op{K: "setlevel", L: s, Lvl: flat(t, wire.Uninit, wire.Off)})
			continue
		case 1:
			w++
			ws[w] = s
			o := wire.Op{K: "mkwriter", L: s, W: w, M: pick(t, "fields", "ctx")}
			for j := flat(t, 0, 4); j > 0; j-- {
				o.Fields = append(o.Fields, wire.Field{Key: pick(t, "k", "u", "user"), Val: val()})
			}
			if o.M == "ctx" && chance(t, 60) {
				id++
				o.N = int(id)
			}
			c.Ops = append(c.Ops, o)
			continue
		case 2:
			if c.Bubble {
				c.Ops = append(c.Ops, wire.Op{K: "sleep", D: pick(t, int64(flat(t, 1, 2000))*1e6, 1e9, 60e9, 36*3600e9)})
				continue
			}
			var par [][]wire.Op
			for j := flat(t, 1, 4); j > 0; j-- {
				var ops []wire.Op
				for n := flat(t, 1, 6); n > 0; n-- {
					o := log(flat(t, 0, len(nm)-1))
					o.Quiet = true
					ops = append(ops, o)
				}
				par = append(par, ops)
			}
			c.Ops = append(c.Ops, wire.Op{K: "par", Par: par})
			continue
		}
		o := log(s)
		if w > 0 && chance(t, 50) {
			o.W = flat(t, 1, w)
			o.L = ws[o.W]
		}
		c.Ops = append(c.Ops, o)
	}
	shut(&c)
	c.Ops = append(c.Ops, wire.Op{K: "probes"})
	return c
}

func probesIn(l []wire.Val, f func(id int)) {
	for _, v := range l {
		if v.T == "probe" {
			f(int(v.I))
		}
	}
}

func checkC29(x *X, c *wire.Case) error {
	r := x.Run("plain", c)
	type span struct {
		a, b int
		emit bool
		what string
	}
	calls := map[int][]span{} // by probe
	wr := map[int][]int{}     // probes of writers
	wctx := map[int]int{}     // and of their contexts, which also tell the call site
	suppressed := 0
	reach := func(h *history, name string, lvl int) (outs []map[string]string, emit bool) {
		for _, ref := range h.m.deliveries(name, lvl) {
			d := h.m.outDef(ref)
			if d == nil || d["type"] == "cap" || d["type"] == "memory" || lvl >= threshold(d) {
				outs = append(outs, d)
				emit = true
			}
		}
		return
	}
	was := map[string]string{}
	_, err := play(c, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
		use := func(o *wire.Op, a, b int) []map[string]string {
			name, lvl := h.names[o.L], wire.MethodLevel(o)
			outs, emit := reach(h, name, lvl)
			s := span{a, b, emit, fmt.Sprintf("op %d: %s at %s on logger %q (effective level %s, outputs %v)", i, o.M, wire.LevelNames[lvl], name, wire.LevelNames[h.m.level(name)], h.m.deliveries(name, lvl))}
			n := 0
			probesIn(o.Args, func(id int) { calls[id] = append(calls[id], s); n++ })
			for _, id := range wr[o.W] {
				calls[id] = append(calls[id], s)
				n++
			}
			if id := wctx[o.W]; id != 0 {
				s.emit = len(h.m.deliveries(name, lvl)) > 0
				calls[id] = append(calls[id], s)
				n++
			}
			if n > 0 && !emit {
				suppressed++
				x.Class("suppressed by:%s", map[bool]string{true: "threshold", false: "level"}[len(h.m.deliveries(name, lvl)) > 0])
			}
			return outs
		}
		var outs []map[string]string
		switch o.K {
		case "mkwriter":
			for _, f := range o.Fields {
				probesIn([]wire.Val{f.Val}, func(id int) { wr[o.W] = append(wr[o.W], id) })
			}
			if o.N != 0 {
				wctx[o.W] = o.N
			}
		case "log":
			outs = use(o, res.A, res.B)
		case "par":
			for t := range o.Par {
				for k := range o.Par[t] {
					use(&o.Par[t][k], res.Seq[t][k][0], res.Seq[t][k][1])
				}
			}
		}
		if c.Snap == "" || o.K != "log" && o.K != "sleep" {
			return nil
		}
		for _, d := range h.m.cfg.Outputs {
			var now strings.Builder
			if d["type"] == "console" {
				fmt.Fprintln(&now, res.Out)
			}
			for _, f := range res.Files {
				if d["file"] != "" && strings.HasPrefix(f.Path, strings.TrimSuffix(d["file"], "log")) {
					fmt.Fprintln(&now, f.Path, f.Size, f.Mode)
				}
			}
			got := false
			for _, e := range outs {
				got = got || e != nil && e["name"] == d["name"]
			}
			if w, ok := was[d["name"]]; ok && !got && w != now.String() {
				return fmt.Errorf("op %d (%s): output %v does not get this message, but its target changes from %q to %q", i, o.K, d, w, now.String())
			}
			was[d["name"]] = now.String()
			x.Class("target watched; message for it:%v", got)
		}
		return nil
	})
	if err != nil {
		return err
	}
	used := 0
	for _, p := range r.Op[len(c.Ops)-1].Probes {
		l := calls[p[0]]
		ok := false
		for _, s := range l {
			ok = ok || s.emit && s.a < p[1] && p[1] < s.b
		}
		if !ok {
			var d []string
			for _, s := range l {
				d = append(d, fmt.Sprintf("%s, calls %d to %d, emits: %v", s.what, s.a, s.b, s.emit))
			}
			return fmt.Errorf("operand or field %d is used at %d, not during a call that emits it: %q", p[0], p[1], d)
		}
		used++
	}
	x.Class("probes used:%v calls suppressed:%v", used > 0, suppressed > 0)
	x.NonTrivial(used > 0 && suppressed > 0)
	return nil
}

func init() {
	add(Prop{
		ID:   "C29",
		Rule: "calls of all kinds, also from several goroutines, with operands, field values and contexts that record each use, on loggers of changing levels and outputs with thresholds, asynchronous ones too; each use must lie, by order numbers, within a logging call that has this operand and that some output accepts (a context: that the level lets through); and the files and the console of an output change only by messages for it, also when a roll is due; non-trivial: operands were used and calls with operands were suppressed",
	}, genC29, checkC29)
}
