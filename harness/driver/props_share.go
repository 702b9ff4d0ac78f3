package driver

import (
	"fmt"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C30: a file or the console is shared: several outputs, and the application
// itself, write to it.

// shareOut draws an output on one of the two targets, the file and the console.
func shareOut(t *rapid.T, i int, async int) map[string]string {
	o := asyncOut(t, i, pick(t, "size_rolling_file", "size_rolling_file", "time_rolling_file", "console"))
	o["format"] = fmt.Sprintf("f%d", i)
	if o["file"] != "" {
		o["file"] = pick(t, "log/x.log", "log/x.log", "log//x.log", "./log/x.log", "log/../log/x.log", "link.log", "log/l.log")
	}
	if !chance(t, async) {
		delete(o, "async")
	}
	if chance(t, 25) {
		o["threshold"] = levelText(t, flat(t, wire.All, wire.Critical))
	}
	return o
}

func genC30(t *rapid.T) wire.Case {
	c := wire.Case{Procs: pick(t, 0, 0, 1, 2)}
	sync := chance(t, 45) // then also truncated, and content is exact
	async := 55
	if sync {
		async = 0
	}
	c.Files = []wire.File{{Path: "link.log", Link: "log/x.log"}, {Path: "log/l.log", Link: "x.log"}}
	if chance(t, 60) {
		c.Files = append(c.Files, wire.File{Path: "log/x.log", Msg: &wire.Msg{T: 999, I: 0, Len: pick(t, 0, 0, 300, 5000)}})
	}
	nm := names(t, 1, 4)
	cfg := func() *wire.Cfg {
		cf := &wire.Cfg{}
		var on []string
		for i := flat(t, 1, 4) - 1; i >= 0; i-- {
			cf.Formats = append(cf.Formats, map[string]string{"name": fmt.Sprintf("f%d", i), "type": "text", "layout": fmt.Sprintf("{%d}", i) + pick(t, msgLayouts...) + pick(t, "", "", "~")})
			cf.Outputs = append(cf.Outputs, shareOut(t, i, async))
			on = append(on, fmt.Sprintf("o%d", i))
		}
		cf.Loggers = []wire.CfgLogger{{Name: "root", Level: levelText(t, pick(t, wire.All, wire.All, wire.Info_)), Outs: subset(t, on, 1, len(on))}}
		for _, n := range nm {
			if chance(t, 50) && n != "root" {
				cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: n, Level: levelText(t, flat(t, wire.All, wire.Error)), Outs: subset(t, on, 1, len(on))})
			}
		}
		return cf
	}
	open(&c, cfg(), nm)
	i := 0
	log := func(thr, i int) wire.Op {
		m, lvl := method(t)
		return wire.Op{K: "log", L: flat(t, 0, len(nm)-1), M: m, Lvl: lvl, Msg: genMsg(t, thr, i)}
	}
	own := func(thr, i int) wire.Op {
		m := genMsg(t, thr, i)
		m.T += 1000
		return wire.Op{K: "append", F: &wire.File{Path: pick(t, "log/x.log", "log/x.log", "-"), Msg: m}}
	}
	ext := 0
	thr := 0
	for k := flat(t, 3, 25); k > 0; k-- {
		switch flat(t, 0, 12) {
		case 0, 1, 2:
			c.Ops = append(c.Ops, own(0, ext))
			ext++
		case 3:
			if sync {
				c.Ops = append(c.Ops, wire.Op{K: "ls", Name: "log", N: 1}, wire.Op{K: "trunc", Name: "log/x.log", N: pick(t, 0, 0, 0, 1)})
			}
		case 4:
			if chance(t, 40) {
				c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cfg()})
			}
		case 5, 6:
			if sync {
				break
			}
			var par [][]wire.Op
			for j := flat(t, 1, 6); j > 0; j-- {
				thr++
				var ops []wire.Op
				for n := flat(t, 1, 12); n > 0; n-- {
					o := log(thr, len(ops))
					if chance(t, 20) {
						o = own(thr, len(ops))
					}
					o.Quiet = true
					ops = append(ops, o)
				}
				par = append(par, ops)
			}
			c.Ops = append(c.Ops, wire.Op{K: "par", Par: par})
		default:
			c.Ops = append(c.Ops, log(0, i))
			i++
		}
	}
	shut(&c)
	return c
}

func checkC30(x *X, c *wire.Case) error {
	r := x.Run("plain", c)
	type key struct {
		epoch int
		out   string
		thr   int
	}
	// what each target should get, per writer and thread, and if nothing is asynchronous the bytes
	want := map[string]map[key]*[]sent{"log/x.log": {}, "-": {}}
	exact := map[string]string{}
	for _, f := range c.Files {
		exact[f.Path] += f.Text()
	}
	before := exact["log/x.log"]
	sync := true
	outs, truncs := map[string]bool{}, 0
	base := 0
	lists := map[string][][]sent{}
	put := func(target string, k key, s sent) {
		l := want[target][k]
		if l == nil {
			l = new([]sent)
			want[target][k] = l
		}
		*l = append(*l, s)
		exact[target] += s.text
	}
	_, err := play(c, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
		use := func(thr int, o *wire.Op, a, b int) {
			if o.K == "append" {
				put(o.F.Path, key{-1, "", thr}, sent{text: o.F.Text(), a: a, b: b, must: true, may: true})
				outs["own "+o.F.Path] = true
				return
			}
			if o.K != "log" {
				return
			}
			lvl, name := wire.MethodLevel(o), h.names[o.L]
			for _, ref := range h.m.deliveries(name, lvl) {
				d := h.m.outDef(ref)
				if d == nil {
					infra("output %s", ref)
				}
				if lvl < threshold(d) {
					continue
				}
				e := &event{pid: r.Pid, prog: r.Prog, name: name, lvl: lvl, msg: o.Text(), fields: map[string]interface{}{}, t: h.time(1), loc: &directLoc}
				s := sent{text: renderBy(h.m.cfg, d["format"], e), a: a, b: b, must: true, may: true}
				if d["async"] == "true" {
					// some time later
					s.a, s.b = -1, 1<<40
					sync = false
				}
				target := "-"
				if d["file"] != "" {
					target = "log/x.log"
				}
				put(target, key{h.m.epoch, d["name"], thr}, s)
				outs[fmt.Sprint(h.m.epoch, d["name"], target)] = true
			}
		}
		switch o.K {
		case "par":
			for t := range o.Par {
				for k := range o.Par[t] {
					use(base+t+1, &o.Par[t][k], res.Seq[t][k][0], res.Seq[t][k][1])
				}
			}
			base += len(o.Par)
			sync = false
		case "ls":
			for _, f := range res.Files {
				if f.Path == "log/x.log" && string(f.Data) != exact["log/x.log"] {
					return fmt.Errorf("op %d: before truncation the file holds %q, not %q", i, cut(string(f.Data), 300), cut(exact["log/x.log"], 300))
				}
			}
		case "trunc":
			if o.N < len(exact["log/x.log"]) {
				exact["log/x.log"] = exact["log/x.log"][:o.N]
			}
			truncs++
		default:
			use(0, o, res.A, res.B)
		}
		return nil
	})
	if err != nil {
		return err
	}
	tree := ReadTree(r.Dir)
	got := map[string]string{"log/x.log": string(tree["log/x.log"].Data), "-": string(r.Out)}
	for p, i := range tree {
		if i.Kind == "f" && p != "log/x.log" && strings.HasPrefix(p, "log/") {
			return fmt.Errorf("there is %s, but no roll was due", p)
		}
	}
	total := 0
	for _, target := range []string{"log/x.log", "-"} {
		g := got[target]
		if sync {
			if g != exact[target] {
				k := 0
				for k < len(g) && k < len(exact[target]) && g[k] == exact[target][k] {
					k++
				}
				return fmt.Errorf("%s differs at byte %d of %d: %q, not %q", target, k, len(g), cut(g[k:], 200), cut(exact[target][k:], 200))
			}
			continue
		}
		if target != "-" {
			if !strings.HasPrefix(g, before) {
				return fmt.Errorf("%s does not begin with what was there before: %q", target, cut(g, 200))
			}
			g = g[len(before):]
		}
		for _, l := range want[target] {
			lists[target] = append(lists[target], *l)
		}
		n, err := interleaved(g, lists[target])
		if err != nil {
			return fmt.Errorf("%s: %w", target, err)
		}
		total += n
	}
	x.Class("writers:%d all synchronous:%v", min(len(outs), 6), sync)
	if truncs > 0 {
		x.Class("truncated")
	}
	x.NonTrivial(len(outs) > 1 && (truncs > 0 || !sync || len(c.Ops) > 8))
	return nil
}

func init() {
	add(Prop{
		ID:   "C30",
		Rule: "one file under several spellings and links and the console, shared by up to four outputs per configuration (synchronous and asynchronous, by size and by time, no roll due), by outputs of replaced configurations, and by the application itself, which appends to the file, truncates it and prints, from several goroutines; if all is synchronous the bytes must be exactly those of the calls in order, else every message of every writer must be there once, whole, in the order of its writer and thread and after what was there before; non-trivial: more than one writer and concurrency, truncation or more than eight operations",
	}, genC30, checkC30)
}
