package driver

import (
	"fmt"
	"strings"
	"time"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// layouts whose rendering is known before
var raceLayouts = []string{"%{msg}", "%{msg}", "[%{lvl}]%{msg}", "%{module}:%{msg}", "%{msg}%{msg}", "%{k:s}|%{msg}", "%{time:2006} %{msg}", "%{shortfunc} %{msg}", "%{shortpkg}/%{msg}", "%{pid}%{program}%{msg}"}

func genC19(t *rapid.T) wire.Case {
	c := wire.Case{}
	if chance(t, 30) {
		c.Bubble, c.Start = true, 1.6e9
		c.TZ = pick(t, "UTC", "Asia/Kolkata")
	} else if chance(t, 30) {
		c.Procs = flat(t, 1, 3)
	}
	cf := &wire.Cfg{}
	nf := flat(t, 1, 3)
	for i := 0; i < nf; i++ {
		cf.Formats = append(cf.Formats, map[string]string{"name": fmt.Sprintf("f%d", i), "type": "text", "layout": pick(t, raceLayouts...)})
	}
	no := flat(t, 1, 4)
	var on []string
	for i := 0; i < no; i++ {
		typ := pick(t, "size_rolling_file", "size_rolling_file", "time_rolling_file", "time_rolling_file", "console", "memory")
		if c.Bubble && chance(t, 50) {
			typ = "time_rolling_file"
		}
		if typ == "console" {
			for _, o := range cf.Outputs {
				if o["type"] == "console" {
					typ = "memory"
				}
			}
		}
		o := map[string]string{"name": fmt.Sprintf("o%d", i), "type": typ}
		if typ != "memory" && chance(t, 40) {
			o = asyncOut(t, i, typ)
		}
		o["format"] = fmt.Sprintf("f%d", flat(t, 0, nf-1))
		if strings.HasSuffix(typ, "file") {
			o["file"] = fmt.Sprintf("log/x%d.log", i)
			if chance(t, 40) {
				o["name_mode"] = "prefix"
			}
			switch {
			case typ == "time_rolling_file":
				o["pattern"] = pick(t, "2006-01-02T15-04-05", "2006-01-02T15-04-05", "2006-01-02T15-04")
			case chance(t, 30):
				o["size"] = "100M"
			default:
				o["size"] = fmt.Sprint(flat(t, 1, 2000))
			}
			o["backups"] = "20"
			if o["size"] != "100M" && chance(t, 60) {
				o["archive"] = pick(t, "zip", "gzip")
				o["backups"] = pick(t, "1", "2", "5", "20")
			}
		} else if chance(t, 20) {
			o["threshold"] = levelText(t, flat(t, wire.Trace, wire.Error))
		}
		cf.Outputs = append(cf.Outputs, o)
		on = append(on, o["name"])
	}
	nm := []string{"root", "a", "a/b", "c"}
	cf.Loggers = []wire.CfgLogger{{Name: "root", Level: "all", Outs: on}}
	if chance(t, 40) {
		cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: "a", Outs: subset(t, on, 1, no)})
	}
	open(&c, cf, nm)
	nw := flat(t, 0, 4)
	for w := 1; w <= nw; w++ {
		c.Ops = append(c.Ops, wire.Op{K: "mkwriter", L: flat(t, 0, 3), W: w, M: pick(t, "fields", "ctx"), Fields: []wire.Field{{Key: "k", Val: wire.Val{T: "s", S: fmt.Sprint("w", w)}}}})
	}
	wl := map[int]int{}
	for i := range c.Ops {
		if c.Ops[i].K == "mkwriter" {
			wl[c.Ops[i].W] = c.Ops[i].L
		}
	}
	one := func(thr, i int) wire.Op {
		m, lvl := method(t)
		o := wire.Op{K: "log", L: flat(t, 0, 3), M: m, Lvl: lvl, Msg: genMsg(t, thr, i), Quiet: thr > 0}
		if o.Msg.Len > 10000 && chance(t, 80) {
			o.Msg.Len = 0
		}
		if nw > 0 && chance(t, 30) {
			o.W = flat(t, 1, nw)
			o.L = wl[o.W]
		}
		return o
	}
	thr, i := 0, 0
	for ph := flat(t, 1, 2); ph > 0; ph-- {
		for k := flat(t, 0, 5); k > 0; k-- {
			c.Ops = append(c.Ops, one(0, i))
			i++
		}
		var par [][]wire.Op
		long := pick(t, 5, 20, 40)
		for k := flat(t, 2, 10); k > 0; k-- {
			thr++
			var ops []wire.Op
			for n := flat(t, 1, long); n > 0; n-- {
				ops = append(ops, one(thr, len(ops)))
				if c.Bubble && chance(t, 20) {
					ops = append(ops, wire.Op{K: "sleep", D: int64(pick(t, 1, 1, 2)) * 500e6, Quiet: true})
				}
			}
			par = append(par, ops)
		}
		c.Ops = append(c.Ops, wire.Op{K: "par", Par: par})
	}
	shut(&c)
	return c
}

// lateStart relaxes the messages that retention may have dropped: those before
// the first one of each thread that is there.
func lateStart(stream string, threads [][]sent) {
	for t := range threads {
		for k := range threads[t] {
			if strings.Contains(stream, threads[t][k].text) {
				break
			}
			threads[t][k].must = false
		}
	}
}

func checkC19(x *X, c *wire.Case) error {
	r := x.Run("race", c)
	h, err := play(c, r, nil)
	if err != nil {
		return err
	}
	tree := ReadTree(r.Dir)
	mem := map[int]string{}
	for _, e := range r.Op[len(c.Ops)-1].Evs {
		mem[e.ID] = string(e.B)
	}
	for _, d := range h.m.cfg.Outputs {
		if d["type"] == "syslog" {
			continue
		}
		threads := h.perThread(d, nil)
		var got string
		rolls := 0
		switch d["type"] {
		case "console":
			got = string(r.Out)
		case "memory":
			id, ok := h.memID[fmt.Sprintf("e%d:%s", h.m.epoch, d["name"])]
			if !ok {
				continue
			}
			got = mem[id]
		default:
			o := newRollOut(d, h.loc())
			parts, n, err := o.stored(tree)
			if err != nil {
				return fmt.Errorf("output %v: %w", d, err)
			}
			var b strings.Builder
			for _, p := range parts {
				b.WriteString(p.content)
			}
			got = b.String()
			rolls = len(parts) - 1
			if o.ext == "" && n >= o.max {
				lateStart(got, threads)
				x.Class("retention")
			}
		}
		k, err := interleaved(got, threads)
		if err != nil {
			return fmt.Errorf("output %v: %w", d, err)
		}
		x.Class("target:%s async:%s archive:%s", d["type"], d["async"], d["archive"])
		if rolls > 0 {
			x.Class("rolls while logging: %s", d["type"])
		}
		x.NonTrivial(k > 10 && len(threads) > 2)
	}
	return nil
}

// C20: calls of every kind at once. Thread 0 of a phase loads configurations,
// thread t > 0 alone sets level and outputs of loggers that no configuration
// lists, so that the state after each phase is known.
func genC20(t *rapid.T) wire.Case {
	c := wire.Case{}
	if chance(t, 40) {
		c.Procs = flat(t, 1, 4)
	}
	all := names(t, 4, 10)
	if chance(t, 40) {
		all = append(all, "root")
	}
	listed := subset(t, all, 1, len(all)/2+1)
	isListed := map[string]bool{"root": true}
	for _, x := range listed {
		isListed[x] = true
	}
	var free []string
	for _, x := range all {
		if !isListed[x] {
			free = append(free, x)
		}
	}
	ep := 0
	cfg := func() wire.Op {
		cf := genCfg(t, nil, false)
		ep++
		// list some of those that may be listed
		cf.Loggers = cf.Loggers[:0]
		var on []string
		for _, o := range cf.Outputs {
			if o["type"] != "console" || chance(t, 50) {
				o["type"] = pick(t, "cap", "cap", "cap", "cap", "memory", "size_rolling_file", "time_rolling_file")
				o["file"], o["pattern"], o["size"] = fmt.Sprintf("log/e%d%s.log", ep, o["name"]), "2006-01-02T15-04-05", "100"
				o["async"] = pick(t, "", "true")
			}
			o["ep"] = fmt.Sprint(ep)
			on = append(on, o["name"])
		}
		ln := subset(t, listed, 0, len(listed))
		if chance(t, 80) {
			ln = append([]string{"root"}, ln...)
		}
		seen := map[string]bool{}
		for _, x := range ln {
			if seen[x] {
				continue
			}
			seen[x] = true
			l := wire.CfgLogger{Name: x, Level: levelText(t, flat(t, wire.All, wire.Off)), Outs: subset(t, on, 1, 3)}
			cf.Loggers = append(cf.Loggers, l)
		}
		return wire.Op{K: "setcfg", Cfg: cf}
	}
	slot := map[string]int{}
	for i, x := range all {
		slot[x] = i
	}
	if chance(t, 70) {
		c.Ops = append(c.Ops, cfg())
	}
	nout := 0
	for ; nout < 4; nout++ {
		c.Ops = append(c.Ops, wire.Op{K: "newout", Name: fmt.Sprintf("n%d", nout), N: nout})
	}
	// loggers that exist before; the others are only looked up by name at first
	known := map[string]bool{}
	for _, x := range subset(t, all, 1, len(all)) {
		c.Ops = append(c.Ops, wire.Op{K: "get", L: slot[x], Name: x})
		known[x] = true
	}
	var knownNames []string
	for _, x := range all {
		if known[x] {
			knownNames = append(knownNames, x)
		}
	}
	tok := 0
	hooks := chance(t, 50)
	for ph := flat(t, 1, 2); ph > 0; ph-- {
		nt := flat(t, 2, 8)
		owner := map[string]int{}
		for _, x := range free {
			owner[x] = flat(t, 1, nt-1)
		}
		var par [][]wire.Op
		for th := 0; th < nt; th++ {
			var ops []wire.Op
			got := map[string]bool{}
			if th == 0 && chance(t, 60) {
				ops = append(ops, wire.Op{K: "gosched", N: flat(t, 1, 30), Quiet: true}, cfg())
			}
			for n := flat(t, 2, 14); n > 0; n-- {
				x := pick(t, knownNames...)
				if chance(t, 35) {
					y := pick(t, all...)
					ops = append(ops, wire.Op{K: "get", L: slot[y], Name: y})
					got[y] = true
				}
				if len(got) > 0 && chance(t, 40) {
					for _, y := range all {
						if got[y] {
							x = y
						}
					}
				}
				s := slot[x]
				switch flat(t, 0, 11) {
				case 0, 1, 2:
					o := logTok(t, s, tok)
					tok++
					o.Quiet = true
					if hooks && chance(t, 40) {
						// an operand that calls the library when it is formatted
						y := pick(t, x, x, pick(t, all...))
						o.Args = append(o.Args, wire.Val{T: "hook", I: int64(flat(t, 0, 5)), S: y})
						if o.Fmt != "" {
							o.Fmt += " %v"
						}
					}
					ops = append(ops, o)
				case 3:
					ops = append(ops, wire.Op{K: "query", L: s, Quiet: true})
				case 4:
					ops = append(ops, wire.Op{K: "outputs", Name: x, Quiet: false})
				case 5:
					if chance(t, 40) {
						ops = append(ops, wire.Op{K: "close", Quiet: true})
						continue
					}
					ops = append(ops, wire.Op{K: "skip", L: s, N: flat(t, 0, 2), Quiet: true})
				case 6:
					ops = append(ops, wire.Op{K: "reg", M: "out", Name: fmt.Sprintf("t%d", flat(t, 0, 2)), Ext: "t", Quiet: true})
				case 7:
					ops = append(ops, wire.Op{K: "reg", M: "fmt", Name: fmt.Sprintf("t%d", flat(t, 0, 2)), Ext: "t", Quiet: true})
				case 8:
					if th == 0 {
						ops = append(ops, cfg())
					} else if w := th*10 + flat(t, 1, 3); true {
						ops = append(ops, wire.Op{K: "mkwriter", L: s, W: w, M: pick(t, "fields", "ctx"), Fields: []wire.Field{{Key: "k", Val: wire.Val{T: "i", I: 1}}}, Quiet: true})
						o := logTok(t, s, tok)
						tok++
						o.Quiet, o.W = true, w
						ops = append(ops, o)
					}
				default:
					if th == 0 && chance(t, 60) {
						ops = append(ops, cfg())
						continue
					}
					for _, y := range free {
						if owner[y] == th && (known[y] || got[y]) && chance(t, 60) {
							if chance(t, 60) {
								ops = append(ops, wire.Op{K: "setlevel", L: slot[y], Lvl: flat(t, wire.Uninit, wire.Off)})
							} else {
								var outs []string
								for _, k := range subset(t, seq(0, nout-1), 0, 2) {
									outs = append(outs, fmt.Sprintf("@%d", k))
								}
								ops = append(ops, wire.Op{K: "setouts", L: slot[y], Outs: outs})
							}
						}
					}
				}
			}
			par = append(par, ops)
		}
		c.Ops = append(c.Ops, wire.Op{K: "par", Par: par})
		// now everything is settled
		for _, x := range all {
			c.Ops = append(c.Ops, wire.Op{K: "get", L: slot[x], Name: x}, wire.Op{K: "query", L: slot[x]})
			o := logTok(t, slot[x], tok)
			tok++
			c.Ops = append(c.Ops, o)
			known[x] = true
		}
		knownNames = all
		if chance(t, 30) {
			c.Ops = append(c.Ops, cfg())
			for _, x := range all {
				o := logTok(t, slot[x], tok)
				tok++
				c.Ops = append(c.Ops, o)
			}
		}
	}
	return c
}

func checkC20(x *X, c *wire.Case) error {
	r := x.Run("race", c)
	if err := r.Crash(); err != nil {
		return err
	}
	subs := map[[3]int]*wire.Res{}
	for i := range r.Res {
		if s := &r.Res[i]; s.Thr > 0 {
			subs[[3]int{s.Op, s.Thr, s.Sub}] = s
		}
	}
	// lookups agree
	ids := map[string]int{}
	names := map[int]string{}
	agree := func(name string, id int) error {
		name = norm(name)
		if old, ok := ids[name]; ok && old != id {
			return fmt.Errorf("GetLogger(%q) gave different loggers (%d and %d)", name, old, id)
		}
		if old, ok := names[id]; ok && old != name {
			return fmt.Errorf("GetLogger(%q) and GetLogger(%q) gave the same logger", name, old)
		}
		ids[name], names[id] = id, name
		return nil
	}
	// the same calls one after another
	flatC := &wire.Case{}
	flatR := &Result{Op: map[int]*wire.Res{}, Done: true, Pid: r.Pid, Prog: r.Prog, Out: r.Out, Dir: r.Dir}
	app := func(o wire.Op, res *wire.Res) {
		if res == nil {
			res = &wire.Res{}
		}
		flatR.Op[len(flatC.Ops)] = res
		flatC.Ops = append(flatC.Ops, o)
	}
	raced, cfgs, sets := 0, 0, 0
	for i := range c.Ops {
		o := &c.Ops[i]
		res := r.Op[i]
		if o.K == "get" {
			if err := agree(o.Name, res.ID); err != nil {
				return err
			}
		}
		if o.K != "par" {
			app(*o, res)
			continue
		}
		for t := range o.Par {
			for k := range o.Par[t] {
				p := &o.Par[t][k]
				s := subs[[3]int{i, t + 1, k}]
				switch p.K {
				case "get":
					if err := agree(p.Name, s.ID); err != nil {
						return err
					}
					app(*p, s)
				case "setcfg":
					cfgs++
					app(*p, s)
				case "setlevel", "setouts", "skip":
					sets++
					app(*p, s)
				case "log":
					raced++
				case "outputs":
					_ = s
				}
			}
		}
		// each message at most once per output
		type del struct {
			id  int
			msg string
		}
		seen := map[del]bool{}
		all := &wire.Res{}
		for _, e := range res.Evs {
			if e.E != "send" {
				all.Evs = append(all.Evs, e)
				continue
			}
			k := del{e.ID, string(e.Msg)}
			if seen[k] {
				return fmt.Errorf("op %d: message %q was delivered twice to output %s", i, e.Msg, e.Name)
			}
			seen[k] = true
		}
		app(wire.Op{K: "wait"}, all)
	}
	h, err := play(flatC, flatR, func(h *history, i int, o *wire.Op, res *wire.Res) error { return checkQuery(h, i, o, res) })
	if err != nil {
		return err
	}
	for _, p := range h.hops {
		if err := p.exact(); err != nil {
			return fmt.Errorf("after all calls returned: %w", err)
		}
	}
	x.Class("configurations:%s", bucket(cfgs))
	x.Class("level and output settings:%s", bucket(sets))
	x.NonTrivial(raced > 5 && cfgs > 0)
	return nil
}

func init() {
	add(Prop{
		ID:    "C19",
		Kinds: "race",
		Rule:  "2 to 10 goroutines and the main one log messages up to 128 KB through four loggers and writers with fields to up to four shared outputs (console, memory, size and time rolling with and without archive, synchronous and asynchronous) of a worker built with the race detector, in a part of the cases under a virtual clock so that periods end among the calls; each output must hold each message once, whole, in an order compatible with the calls' order numbers; a data race is a violation; non-trivial: more than ten messages of several goroutines in one output",
	}, genC19, checkC19)
	add(Prop{
		ID:    "C20",
		Kinds: "race",
		Rule:  "2 to 8 goroutines look up, log, query, set levels, outputs and caller skips, load configurations, close, ask for outputs and register creators at once, in a worker built with the race detector; no panic, hang or race, one logger per name, no message twice in an output, and after all calls returned levels, predicates and deliveries are those of the reference model of the last settings; non-trivial: messages were logged while configurations were loaded",
	}, genC20, checkC20)
}

var _ = time.Second
