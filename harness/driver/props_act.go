package driver

import (
	"fmt"
	"sort"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C31: methods of operands and fields use the library themselves.

// actor generates cases with acts.
type actor struct {
	t    *rapid.T
	c    *wire.Case
	nm   []string
	slot int
	w    int
	tok  int
	outs int
	race bool
}

// act adds one and returns the operand.
func (g *actor) act(depth int) wire.Val {
	t := g.t
	k := len(g.c.Acts)
	g.c.Acts = append(g.c.Acts, nil)
	var ops []wire.Op
	for i := flat(t, 1, 3); i > 0; i-- {
		s := flat(t, 0, len(g.nm)-1)
		switch flat(t, 0, 10) {
		case 0:
			ops = append(ops, wire.Op{K: "query", L: s})
		case 1:
			if g.race {
				break
			}
			ops = append(ops, wire.Op{K: "setlevel", L: s, Lvl: pick(t, wire.Uninit, wire.All, wire.Debug, wire.Warn, wire.Error, wire.Off)})
		case 2:
			g.slot++
			ops = append(ops, wire.Op{K: "get", L: g.slot, Name: pick(t, g.nm...) + pick(t, "", "/", ".") + pick(t, namePieces...)})
			ops = append(ops, g.log(g.slot, depth))
		case 3:
			ops = append(ops, g.writer(s, depth)...)
		case 4:
			if g.outs > 0 && !g.race {
				var o []string
				for _, k := range subset(t, seq(0, g.outs-1), 0, 2) {
					o = append(o, fmt.Sprintf("@%d", k))
				}
				ops = append(ops, wire.Op{K: "setouts", L: s, Outs: o})
			}
		case 5:
			ops = append(ops, wire.Op{K: "outputs", Name: pick(t, g.nm...)})
		case 6:
			ops = append(ops, wire.Op{K: "reg", M: pick(t, "out", "fmt"), Name: "another", Ext: "x"})
		default:
			ops = append(ops, g.log(s, depth))
		}
	}
	g.c.Acts[k] = ops
	return wire.Val{T: "act", I: int64(k), S: pick(t, "str", "str", "err", "fmt", "ptr")}
}

func (g *actor) writer(s, depth int) []wire.Op {
	t := g.t
	g.w++
	w := g.w
	mk := wire.Op{K: "mkwriter", L: s, W: w, M: pick(t, "fields", "ctx")}
	v := wire.Val{T: "s", S: "v"}
	if depth > 0 && chance(t, 50) {
		v = g.act(depth - 1)
	}
	mk.Fields = []wire.Field{{Key: pick(t, "k", "k", "u"), Val: v}}
	o := g.log(s, depth)
	o.W = w
	return []wire.Op{mk, o}
}

func (g *actor) log(s, depth int) wire.Op {
	t := g.t
	o := logTok(t, s, g.tok)
	g.tok++
	if depth > 0 && chance(t, 60) {
		v := g.act(depth - 1)
		o.Args = append(o.Args, v)
		if strings.HasSuffix(o.M, "f") {
			o.Fmt += pick(t, " %v", "%s", "%v%[1]v", " %+v")
		}
	}
	return o
}

func genC31(t *rapid.T) wire.Case {
	c := wire.Case{Procs: pick(t, 0, 0, 0, 1)}
	nm := names(t, 1, 4)
	g := &actor{t: t, c: &c, nm: nm, slot: len(nm)}
	r := rig{types: []string{"size_rolling_file", "time_rolling_file", "memory", "cap", "console", "syslog"}, async: 45, maxOuts: 4, layout: func() string {
		return pick(t, "", "", "[%{k}] ", "%{lvl}:") + pick(t, "%{msg}", "%{msg}", "%{msg}", "%{k}%{msg}", "%{level} %{msg}") + pick(t, "", "", "|%{k}", "%{msg}") + pick(t, "\n", ";")
	}, thr: func() (string, bool) {
		return levelText(t, flat(t, wire.All, wire.Critical)), chance(t, 30)
	}, capf: 10}
	cf := r.cfg(t, nm)
	c.Syslog = 1
	g.race = chance(t, 25)
	for _, o := range cf.Outputs {
		if o["file"] != "" && !g.race && chance(t, 25) {
			o["size"], o["backups"] = fmt.Sprint(flat(t, 1, 300)), "20"
		}
	}
	open(&c, cf, nm)
	if !g.race {
		for ; g.outs < 2; g.outs++ {
			c.Ops = append(c.Ops, wire.Op{K: "newout", Name: fmt.Sprintf("n%d", g.outs), N: g.outs})
		}
		for k := flat(t, 1, 8); k > 0; k-- {
			s := flat(t, 0, len(nm)-1)
			switch flat(t, 0, 5) {
			case 0:
				c.Ops = append(c.Ops, wire.Op{K: "setlevel", L: s, Lvl: pick(t, wire.Uninit, wire.All, wire.Info_)})
			case 1:
				c.Ops = append(c.Ops, g.writer(s, 2)...)
			default:
				c.Ops = append(c.Ops, g.log(s, 3))
			}
		}
		shut(&c)
		return c
	}
	// from several goroutines, while outputs are closed and configurations set
	for k := flat(t, 1, 2); k > 0; k-- {
		var par [][]wire.Op
		for j := flat(t, 2, 5); j > 0; j-- {
			var ops []wire.Op
			for i := flat(t, 1, 5); i > 0; i-- {
				s := flat(t, 0, len(nm)-1)
				switch {
				case j > 1 || chance(t, 30):
					if chance(t, 20) {
						ops = append(ops, g.writer(s, 1)...)
					} else {
						ops = append(ops, g.log(s, 2))
					}
				case chance(t, 50):
					ops = append(ops, wire.Op{K: "close"})
				default:
					ops = append(ops, wire.Op{K: "setcfg", Cfg: cf})
				}
				if chance(t, 20) {
					ops = append(ops, wire.Op{K: "gosched", N: flat(t, 1, 20)})
				}
			}
			for i := range ops {
				ops[i].Quiet = ops[i].K != "setcfg"
			}
			par = append(par, ops)
		}
		c.Ops = append(c.Ops, wire.Op{K: "par", Par: par})
	}
	shut(&c)
	return c
}

func checkC31(x *X, c *wire.Case) error {
	r := x.Run("plain", c)
	if err := r.Crash(); err != nil {
		return err
	}
	// all calls, those of acts too, in the order in which they began
	type call struct {
		o   *wire.Op
		res *wire.Res
	}
	var calls []call
	race := false
	var sends []wire.Ev
	for i := range c.Ops {
		o, res := &c.Ops[i], r.Op[i]
		s := *res
		s.Evs = nil
		for _, e := range res.Evs {
			if e.E == "send" {
				sends = append(sends, e)
			} else {
				s.Evs = append(s.Evs, e)
			}
		}
		if o.K != "par" {
			calls = append(calls, call{o, &s})
			continue
		}
		race = true
		calls = append(calls, call{&wire.Op{K: "gosched"}, &s})
		for t := range o.Par {
			for k := range o.Par[t] {
				if o.Par[t][k].K != "setcfg" {
					calls = append(calls, call{&o.Par[t][k], &wire.Res{A: res.Seq[t][k][0], B: res.Seq[t][k][1]}})
				}
			}
		}
	}
	ran := 0
	for i := range r.Res {
		if s := &r.Res[i]; s.Op == -5 {
			calls = append(calls, call{&c.Acts[s.Thr-1000][s.Sub], s})
			ran++
		}
	}
	sort.SliceStable(calls, func(i, j int) bool { return calls[i].res.A < calls[j].res.A })
	fc := &wire.Case{}
	fr := &Result{Op: map[int]*wire.Res{}, Done: true, Pid: r.Pid, Prog: r.Prog, Out: r.Out, Dir: r.Dir, Last: r.Last}
	for i, k := range calls {
		fc.Ops = append(fc.Ops, *k.o)
		fr.Op[i] = k.res
	}
	h, err := play(fc, fr, func(h *history, i int, o *wire.Op, res *wire.Res) error {
		if race {
			return nil
		}
		return checkQuery(h, i, o, res)
	})
	if err != nil {
		return err
	}
	tree := ReadTree(r.Dir)
	lost := false
	check := func(what, got, ref string, d map[string]string, text func(p *hop) string) error {
		var l [][]sent
		for _, p := range h.hops {
			if contains(p.want, ref) && p.lvl >= threshold(d) {
				m := sent{text: text(p), a: p.res.A, b: p.res.B, must: !race, may: true}
				if race && d["async"] == "true" {
					// two configurations have such an output
					m.a, m.b = -1, 1<<40
				}
				l = append(l, []sent{m})
			}
		}
		n, err := interleaved(got, l)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		lost = lost || n < len(l)
		return nil
	}
	by := map[string]string{}
	for _, e := range sends {
		ref, ok := h.refOf[e.ID]
		if !ok {
			return fmt.Errorf("delivered to an output nobody built: %+v", e)
		}
		if e.F != 0 {
			by[ref] += string(e.B) + "\x00"
		} else {
			by[ref] += string(e.Msg) + "\x00"
		}
	}
	for i := 0; i < 2 && !race; i++ {
		ref := fmt.Sprintf("@%d", i)
		if err := check(ref, by[ref], ref, map[string]string{"type": "cap"}, func(p *hop) string { return p.text + "\x00" }); err != nil {
			return err
		}
	}
	for _, d := range h.m.cfg.Outputs {
		ref := fmt.Sprintf("e%d:%s", h.m.epoch, d["name"])
		end := ""
		var got string
		switch {
		case rolling(d):
			n := 0
			got, n = wholeStream(r, tree, d)
			if n == 20 {
				// the oldest may have been dropped
				x.Class("retention")
				continue
			}
		case d["type"] == "syslog":
			end = "\x00"
			ps, err := r.packets(d["prefix"])
			if err != nil {
				return err
			}
			for _, p := range ps {
				got += p.text + end
			}
		case d["type"] == "cap":
			if race {
				continue // one of several configurations
			}
			end = "\x00"
			got = by[ref]
		default:
			ok := false
			if got, ok = h.target(fr, tree, d, h.m.epoch); !ok {
				continue
			}
		}
		if err := check(fmt.Sprintf("output %v", d), got, ref, d, func(p *hop) string {
			s := renderBy(h.m.cfg, d["format"], h.event(p))
			if d["type"] == "syslog" {
				s = packetText(s)
			}
			return s + end
		}); err != nil {
			return err
		}
	}
	x.Class("raced:%v calls from operands:%s", race, bucket(ran))
	if lost {
		x.Class("lost to closed outputs")
	}
	x.NonTrivial(ran > 1)
	return nil
}

func init() {
	add(Prop{
		ID:   "C31",
		Rule: "logging calls whose operands and field values, when first used, themselves log (with such operands in turn), look loggers up, query, set levels and outputs, make writers, ask for outputs and register creators, to synchronous and asynchronous outputs of all types; by the order in which all calls began, levels are those of the reference model and each output holds each message once, whole, in an order compatible with the calls; in a quarter of the cases from several goroutines while outputs are closed and the configuration is set again, when no call may hang and no message may come twice or damaged; non-trivial: operands made more than one call",
	}, genC31, checkC31)
}
