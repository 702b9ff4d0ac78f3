package driver

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// packet as the system log received it.
type packet struct {
	sev  int
	tag  string
	text string
}

var packetRe = regexp.MustCompile(`(?s)^<([0-9]+)>[A-Z][a-z]{2} [ 0-9][0-9] [0-9]{2}:[0-9]{2}:[0-9]{2} (.*)$`)

// packets received for a tag, in order. others counts the rest.
func (r *Result) packets(tag string) (ps []packet, err error) {
	for _, e := range r.Last.Evs {
		if e.E != "syslog" {
			continue
		}
		m := packetRe.FindStringSubmatch(string(e.B))
		if m == nil {
			return nil, fmt.Errorf("the system log received %q", cut(string(e.B), 300))
		}
		head := fmt.Sprintf("%s[%d]: ", tag, r.Pid)
		if !strings.HasPrefix(m[2], head) {
			continue
		}
		pri, _ := strconv.Atoi(m[1])
		ps = append(ps, packet{pri & 7, tag, m[2][len(head):]})
	}
	return
}

func (r *Result) packetCount() (n int) {
	for _, e := range r.Last.Evs {
		if e.E == "syslog" {
			n++
		}
	}
	return
}

// content of a packet for a rendered text: a newline is added if there is none.
func packetText(s string) string {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	return s
}

var severity = map[int]int{wire.Trace: 7, wire.Debug: 7, wire.Info_: 6, wire.Warn: 4, wire.Error: 3, wire.Critical: 2}

var oddLevels = []string{"", "warning", "INFOS", " info", "info ", "0", "5", "uninitialized", "none", "err", "WRN", "D"}

func genC09(t *rapid.T) wire.Case {
	c := wire.Case{}
	nm := names(t, 1, 3)
	g := rig{types: []string{"console", "size_rolling_file", "time_rolling_file", "syslog", "cap"}, async: 45, maxOuts: 5, layout: func() string {
		return pick(t, "%{lvl} %{msg}\n", "%{msg}|\n", "[%{level}] %{msg} %{module}\n")
	}, thr: func() (string, bool) {
		if chance(t, 12) {
			return "", false
		}
		if chance(t, 15) {
			return pick(t, oddLevels...), true
		}
		return levelText(t, flat(t, wire.All, wire.Off)), true
	}}
	cf := g.cfg(t, nm)
	for i, o := range cf.Outputs {
		if o["type"] == "syslog" {
			c.Syslog = 1
		}
		if o["type"] == "cap" && i > 0 && chance(t, 70) {
			o["threshold"] = "critical" // means nothing to it
		}
	}
	for i := range cf.Loggers {
		if chance(t, 25) {
			cf.Loggers[i].Level = wire.LevelNames[flat(t, wire.All, wire.Error)]
		}
	}
	open(&c, cf, nm)
	for i := flat(t, 4, 40); i > 0; i-- {
		s := flat(t, 0, len(nm)-1)
		if chance(t, 8) {
			c.Ops = append(c.Ops, wire.Op{K: "query", L: s})
			continue
		}
		if chance(t, 4) {
			c.Ops = append(c.Ops, wire.Op{K: "setlevel", L: s, Lvl: flat(t, wire.All, wire.Critical)})
		}
		c.Ops = append(c.Ops, logTok(t, s, i))
	}
	shut(&c)
	return c
}

func checkC09(x *X, c *wire.Case) error {
	r := x.Run("plain", c)
	h, err := play(c, r, checkQuery)
	if err != nil {
		return err
	}
	if err := h.rendered(); err != nil {
		return err
	}
	if err := h.exactStreams(false); err != nil {
		return err
	}
	if err := h.syslogs(false); err != nil {
		return err
	}
	for _, d := range h.m.cfg.Outputs {
		pass, hold := false, false
		for _, p := range h.hops {
			for i := range p.want {
				if p.defs[i] != nil && p.defs[i]["name"] == d["name"] {
					if p.lvl >= threshold(d) {
						pass = true
					} else {
						hold = true
					}
				}
			}
		}
		if d["type"] != "cap" {
			x.Class("output:%s async:%v threshold:%s", d["type"], d["async"] == "true", wire.LevelNames[threshold(d)])
		}
		x.NonTrivial(pass && hold)
	}
	return nil
}

// syslogs compares what the system log received per output.
func (h *history) syslogs(sev bool) error {
	total := 0
	cfg := h.m.cfg
	for _, d := range cfg.Outputs {
		if d["type"] != "syslog" {
			continue
		}
		var want []packet
		for _, p := range h.hops {
			for i := range p.want {
				if p.defs[i] != nil && p.defs[i]["name"] == d["name"] && p.lvl >= threshold(d) {
					want = append(want, packet{severity[p.lvl], d["prefix"], packetText(renderBy(cfg, d["format"], h.event(p)))})
				}
			}
		}
		got, err := h.r.packets(d["prefix"])
		if err != nil {
			return err
		}
		total += len(got)
		for i := 0; i < len(got) || i < len(want); i++ {
			switch {
			case i >= len(got):
				return fmt.Errorf("syslog output %v: message %d never arrived: %q", d, i, cut(want[i].text, 200))
			case i >= len(want):
				return fmt.Errorf("syslog output %v: %d messages too many: %q", d, len(got)-len(want), cut(got[i].text, 200))
			case got[i].text != want[i].text:
				return fmt.Errorf("syslog output %v: message %d is %q, not %q", d, i, cut(got[i].text, 200), cut(want[i].text, 200))
			case sev && got[i].sev != want[i].sev:
				return fmt.Errorf("syslog output %v: message %q has severity %d, not %d", d, cut(got[i].text, 100), got[i].sev, want[i].sev)
			}
		}
	}
	if n := h.r.packetCount(); n != total {
		return fmt.Errorf("the system log received %d messages under other tags than the configured ones", n-total)
	}
	return nil
}

func genC22(t *rapid.T) wire.Case {
	c := wire.Case{Syslog: 1}
	if chance(t, 15) {
		c.Syslog = 0
	}
	nm := names(t, 1, 4)
	g := rig{types: []string{"syslog", "syslog", "syslog", "cap", "memory"}, maxOuts: 4, layout: func() string {
		return pick(t, "%{msg}", "%{msg}\n", "[%{lvl}] %{msg}", "%{module}: %{msg}|%{k}\n", "%{msg}\n\n", "<13>%{msg}")
	}, thr: func() (string, bool) {
		if chance(t, 50) {
			return "", false
		}
		return levelText(t, flat(t, wire.All, wire.Error)), true
	}}
	cf := g.cfg(t, nm)
	for i, o := range cf.Outputs {
		if o["type"] == "syslog" {
			o["prefix"] = pick(t, "app", "my app", "é", "a/b.c", "x:", "P%d", "APP") + fmt.Sprint(i)
		}
	}
	open(&c, cf, nm)
	w := 0
	down := false
	restarts := c.Syslog == 1 && chance(t, 30)
	for i := flat(t, 3, 25); i > 0; i-- {
		if restarts && (down && chance(t, 50) || chance(t, 15)) {
			// the system log ends, or is there again
			down = !down
			c.Ops = append(c.Ops, wire.Op{K: map[bool]string{true: "sysdown", false: "sysup"}[down]})
			if down && chance(t, 50) {
				down = false
				c.Ops = append(c.Ops, wire.Op{K: "sysup"})
			}
		}
		s := flat(t, 0, len(nm)-1)
		o := wire.Op{K: "log", L: s}
		o.M, o.Lvl = method(t)
		if chance(t, 12) {
			o.Msg = &wire.Msg{I: i, Len: pick(t, 100, 1000, 2048, 8192, 30000)}
		} else {
			message(t, &o, false)
			if len(o.Text()) > 50000 { // more than a datagram holds
				o.Fmt, o.Args = "long", nil
			}
		}
		if chance(t, 20) {
			w++
			c.Ops = append(c.Ops, wire.Op{K: "mkwriter", L: s, W: w, M: "fields", Fields: fieldsOf(t)})
			o.W = w
		}
		c.Ops = append(c.Ops, o)
	}
	if down {
		c.Ops = append(c.Ops, wire.Op{K: "sysup"})
	}
	// several threads at the end
	if c.Syslog == 1 && chance(t, 30) {
		var par [][]wire.Op
		for k := flat(t, 2, 4); k > 0; k-- {
			var ops []wire.Op
			for i := flat(t, 1, 8); i > 0; i-- {
				m, lvl := method(t)
				ops = append(ops, wire.Op{K: "log", L: flat(t, 0, len(nm)-1), M: m, Lvl: lvl, Msg: &wire.Msg{T: len(par) + 1, I: len(ops)}, Quiet: true})
			}
			par = append(par, ops)
		}
		c.Ops = append(c.Ops, wire.Op{K: "par", Par: par})
	}
	shut(&c)
	return c
}

func checkC22(x *X, c *wire.Case) error {
	r := x.Run("plain", c)
	var par *wire.Op
	unreach := false
	h, err := play(c, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
		if o.K == "par" {
			par = o
		}
		if o.K == "outputs" {
			uses := false
			for _, on := range listed(h.m.cfg, o.Name).Outs {
				uses = uses || byName(h.m.cfg.Outputs, on)["type"] == "syslog"
			}
			if c.Syslog == 0 && uses && res.Err == "" {
				return fmt.Errorf("op %d: nothing listens on the system log's socket, but the outputs of %q are built without an error", i, o.Name)
			}
			if res.Err != "" && (c.Syslog == 1 || !uses) {
				return fmt.Errorf("op %d: the outputs of %q are refused: %s", i, o.Name, res.Err)
			}
			unreach = unreach || c.Syslog == 0 && uses
		}
		return nil
	})
	if err != nil {
		return err
	}
	if c.Syslog == 0 {
		x.Class("unreachable")
		x.NonTrivial(unreach)
		return nil
	}
	// while the system log is down nothing can arrive, afterwards everything must
	down, downs := map[int]bool{}, 0
	for i := range c.Ops {
		down[i] = i > 0 && down[i-1]
		switch c.Ops[i].K {
		case "sysdown":
			down[i] = true
			downs++
		case "sysup":
			down[i] = false
		}
	}
	hops := h.hops
	h.hops = nil
	for _, p := range hops {
		if !down[p.op] {
			h.hops = append(h.hops, p)
		}
	}
	x.Class("restarts of the system log:%s", bucket(downs))
	sevs := map[int]bool{}
	if par == nil {
		if err := h.syslogs(true); err != nil {
			return err
		}
	} else {
		x.Class("threads")
		// the single-threaded part as above, then each thread's own order
		for _, d := range h.m.cfg.Outputs {
			if d["type"] != "syslog" {
				continue
			}
			got, err := r.packets(d["prefix"])
			if err != nil {
				return err
			}
			k := 0
			for _, p := range h.hops {
				for i := range p.want {
					if p.defs[i] != nil && p.defs[i]["name"] == d["name"] && p.lvl >= threshold(d) {
						k++
					}
				}
			}
			if len(got) < k {
				return fmt.Errorf("syslog output %v: %d messages, not at least %d", d, len(got), k)
			}
			var want [][]packet
			total := 0
			for _, th := range par.Par {
				var ps []packet
				for i := range th {
					o := &th[i]
					lvl := wire.MethodLevel(o)
					for _, ref := range h.m.deliveries(h.names[o.L], lvl) {
						if od := h.m.outDef(ref); od != nil && od["name"] == d["name"] && lvl >= threshold(d) {
							e := &event{pid: r.Pid, prog: r.Prog, name: h.names[o.L], lvl: lvl, msg: o.Text(), fields: map[string]interface{}{}}
							ps = append(ps, packet{severity[lvl], d["prefix"], packetText(renderBy(h.m.cfg, d["format"], e))})
						}
					}
				}
				want = append(want, ps)
				total += len(ps)
			}
			rest := got[k:]
			if len(rest) != total {
				return fmt.Errorf("syslog output %v: %d messages of the threads, not %d", d, len(rest), total)
			}
			for _, g := range rest {
				ok := false
				for i := range want {
					if len(want[i]) > 0 && want[i][0] == g {
						want[i] = want[i][1:]
						ok = true
						break
					}
				}
				if !ok {
					return fmt.Errorf("syslog output %v: %+v is not the next message of any thread", d, g)
				}
			}
		}
	}
	for _, p := range h.hops {
		for i := range p.want {
			if p.defs[i]["type"] == "syslog" && p.lvl >= threshold(p.defs[i]) {
				sevs[severity[p.lvl]] = true
				x.Class("severity:%d", severity[p.lvl])
			}
		}
	}
	x.NonTrivial(len(sevs) > 1)
	return nil
}

func init() {
	add(Prop{
		ID:   "C09",
		Rule: "console, rolling file and syslog outputs (synchronous and asynchronous) with thresholds in any spelling, absent or unknown, beside capturing outputs and loggers with levels; the whole content of each output is compared with the messages at or above its threshold; non-trivial: an output both wrote and held back messages",
	}, genC09, checkC09)
	add(Prop{
		ID:   "C22",
		Rule: "syslog outputs with random prefixes, layouts and thresholds send to a stand-in system log on a Unix socket; tag, text, severity, number and order of packets are compared with the reference, from one and from several goroutines, also after the system log was down and while it was restarted; without a listener building must fail; non-trivial: two severities arrived, or a syslog output was refused",
	}, genC22, checkC22)
}
