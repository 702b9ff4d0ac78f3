package driver

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// genCfg draws a configuration of capturing outputs (and consoles) for the
// named loggers. odd adds outputs that cannot be built.
func genCfg(t *rapid.T, nm []string, odd bool) *wire.Cfg {
	c := &wire.Cfg{}
	nf := flat(t, 1, 3)
	no := flat(t, 1, 4)
	if chance(t, 4) {
		nf, no = flat(t, 1, 12), flat(t, 5, 20)
	}
	// some names differ in case only
	fname := func(i int) string { return fmt.Sprintf("f%d", i) }
	oname := func(i int) string { return fmt.Sprintf("o%d", i) }
	if chance(t, 12) {
		alike := func(c string) func(i int) string {
			return func(i int) string {
				if i%2 == 1 {
					return fmt.Sprintf("%s%d", strings.ToUpper(c), i-1)
				}
				return fmt.Sprintf("%s%d", c, i)
			}
		}
		fname, oname = alike("f"), alike("o")
	}
	for i := 0; i < nf; i++ {
		f := map[string]string{"name": fname(i), "type": "text", "layout": pick(t, "", "x", "[%{module}] ") + "%{msg}" + pick(t, "\n", "|%{lvl}\n", "!")}
		if chance(t, 25) {
			f["type"] = "capf"
		}
		if odd && chance(t, 6) {
			if chance(t, 50) {
				f["type"] = pick(t, "badf", "nosuch", "")
			} else {
				f["type"], f["layout"] = "text", pick(t, "no field", "", "%{}", "%msg")
			}
		}
		c.Formats = append(c.Formats, f)
	}
	var on []string
	for i := 0; i < no; i++ {
		o := map[string]string{"name": oname(i), "type": "cap", "format": fname(flat(t, 0, nf-1))}
		if chance(t, 10) {
			o["type"] = "console"
		}
		if odd && chance(t, 6) {
			o["type"] = pick(t, "bad", "nosuch", "")
		}
		if chance(t, 30) {
			o["x"] = pick(t, "1", "2")
		}
		c.Outputs = append(c.Outputs, o)
		on = append(on, o["name"])
	}
	var ln []string
	if chance(t, 85) {
		ln = append(ln, "root")
	}
	ln = append(ln, subset(t, nm, 0, len(nm))...)
	// a listed ancestor nobody may ever ask for
	for _, x := range nm {
		for _, a := range ancestors(x) {
			if a != "root" && chance(t, 30) {
				ln = append(ln, a)
			}
		}
	}
	seen := map[string]bool{}
	for _, x := range ln {
		if seen[x] {
			continue
		}
		seen[x] = true
		l := wire.CfgLogger{Name: x}
		lvl := flat(t, wire.Uninit, wire.Off)
		if x == "root" && lvl == wire.Uninit {
			lvl = wire.Info_
		}
		l.Level = levelText(t, lvl)
		if lvl == wire.Uninit {
			l.Level = pick(t, "", "none", "INFOS", "warning", "0", " info")
		}
		lo := 0
		if x == "root" {
			lo = 1
		}
		hi := 3
		if no > 4 {
			hi = no
		}
		l.Outs = subset(t, on, lo, hi)
		if len(l.Outs) == 0 {
			l.Outs = nil
		}
		c.Loggers = append(c.Loggers, l)
	}
	return c
}

// ctl shapes a history.
type ctl struct {
	cfgs    [2]int
	ops     [2]int
	odd     bool
	noRoot  bool
	pLevel  int // weights
	pOuts   int
	pQuery  int
	pGet    int
	pCfg    int
	pWriter int
	pArm    int
	keep    bool
	bubble  bool
	cfg     func(t *rapid.T, nm []string, epoch int) *wire.Cfg // instead of genCfg
	outputs bool                                               // ask for the outputs after each configuration
}

// genHistory draws a history of lookups, settings and messages.
func genHistory(t *rapid.T, k ctl) wire.Case {
	c := wire.Case{Keep: k.keep}
	if k.bubble {
		c.Bubble = true
		c.Start = 1.6e9
		c.TZ = pick(t, "UTC", "Europe/Berlin", "Asia/Kolkata")
	}
	nm := names(t, 1, 7)
	var slots []string
	tok := 0
	writers := 0
	wslot := map[int]int{} // writer to slot
	newouts := 0
	armed := map[string]bool{}
	makeOuts := func(k int) (outs []string) {
		for i := 0; i < k; i++ {
			if newouts > 0 && chance(t, 25) {
				// an output that may be another logger's, too
				old := fmt.Sprintf("@%d", flat(t, 0, newouts-1))
				if !contains(outs, old) {
					outs = append(outs, old)
					continue
				}
			}
			outs = append(outs, fmt.Sprintf("@%d", newouts))
			c.Ops = append(c.Ops, wire.Op{K: "newout", Name: fmt.Sprintf("n%d", newouts), N: newouts})
			newouts++
		}
		return
	}
	epoch := 0
	total := flat(t, k.ops[0], k.ops[1])
	cfgs := flat(t, k.cfgs[0], k.cfgs[1])
	get := func() {
		x := pick(t, nm...)
		if chance(t, 10) {
			x = pick(t, "", "root")
		}
		c.Ops = append(c.Ops, wire.Op{K: "get", L: len(slots), Name: x})
		slots = append(slots, norm(x))
	}
	cfg := func() {
		var cf *wire.Cfg
		epoch++
		if k.cfg != nil {
			cf = k.cfg(t, nm, epoch)
		} else {
			cf = genCfg(t, nm, k.odd)
		}
		c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
		if k.outputs {
			for _, l := range cf.Loggers {
				c.Ops = append(c.Ops, wire.Op{K: "outputs", Name: l.Name})
			}
			total += len(cf.Loggers)
		}
		cfgs--
	}
	if cfgs > 0 && chance(t, 80) {
		cfg()
	}
	w := []int{40, k.pGet, k.pLevel, k.pOuts, k.pQuery, k.pCfg, k.pWriter, k.pArm}
	sum := 0
	for _, x := range w {
		sum += x
	}
	for len(c.Ops) < total || cfgs > 0 && len(c.Ops) < 3*total {
		if len(slots) == 0 {
			get()
			continue
		}
		if chance(t, 1) && chance(t, 30) {
			c.Ops = append(c.Ops, getMany(t, nm))
		}
		if k.bubble && chance(t, 12) {
			c.Ops = append(c.Ops, wire.Op{K: "sleep", D: int64(flat(t, 1, 1<<31))})
		}
		d := flat(t, 0, sum-1)
		kind := 0
		for d >= w[kind] {
			d -= w[kind]
			kind++
		}
		if len(c.Ops) >= total && chance(t, 40) {
			kind = 5
		}
		s := flat(t, 0, len(slots)-1)
		switch kind {
		case 0:
			o := logTok(t, s, tok)
			tok++
			if writers > 0 && chance(t, 30) {
				wi := flat(t, 1, writers)
				o.W, o.L = wi, wslot[wi]
			}
			c.Ops = append(c.Ops, o)
		case 1:
			get()
		case 2:
			lvl := flat(t, wire.Uninit, wire.Off)
			if slots[s] == "root" && lvl == wire.Uninit {
				lvl = wire.All
			}
			c.Ops = append(c.Ops, wire.Op{K: "setlevel", L: s, Lvl: lvl})
		case 3:
			lo := 0
			if slots[s] == "root" {
				lo = 1
			}
			outs := makeOuts(flat(t, lo, 3))
			c.Ops = append(c.Ops, wire.Op{K: "setouts", L: s, Outs: outs})
		case 4:
			c.Ops = append(c.Ops, wire.Op{K: "query", L: s})
		case 5:
			if cfgs > 0 {
				cfg()
			}
		case 6:
			writers++
			wslot[writers] = s
			c.Ops = append(c.Ops, wire.Op{K: "mkwriter", L: s, W: writers, M: pick(t, "fields", "ctx"), Fields: []wire.Field{{Key: "k", Val: wire.Val{T: "i", I: int64(writers)}}}})
		case 7:
			// an output that, while it handles a message, sees the settings changed
			if newouts == 0 {
				continue
			}
			o := wire.Op{K: "arm", L: s, N: flat(t, 0, newouts-1)}
			if chance(t, 30) {
				o.Lvl = flat(t, wire.All, wire.Off)
			}
			key := fmt.Sprint(slots[s], o.Lvl != 0)
			if armed[key] {
				continue // in which order they happen may be open
			}
			armed[key] = true
			if o.Lvl == 0 {
				o.Outs = makeOuts(flat(t, 1, 3))
			}
			c.Ops = append(c.Ops, o)
			for i := flat(t, 0, 3); i > 0; i-- {
				c.Ops = append(c.Ops, logTok(t, s, tok))
				tok++
			}
		}
	}
	// see what the last settings do
	for i := flat(t, 1, 6); i > 0 && len(slots) > 0; i-- {
		c.Ops = append(c.Ops, logTok(t, flat(t, 0, len(slots)-1), tok))
		tok++
	}
	return c
}

// checkQuery compares the predicates with the model's level.
func checkQuery(h *history, i int, o *wire.Op, res *wire.Res) error {
	if o.K != "query" {
		return nil
	}
	name := h.names[o.L]
	lvl := h.m.level(name)
	if res.Lvl != lvl {
		return fmt.Errorf("op %d: logger %q: Level() is %d, not %s", i, name, res.Lvl, wire.LevelNames[lvl])
	}
	want := ""
	for k := 0; k < 2; k++ {
		for l := wire.Trace; l <= wire.Critical; l++ {
			if l >= lvl {
				want += "1"
			} else {
				want += "0"
			}
		}
	}
	if want != res.Enabled {
		return fmt.Errorf("op %d: logger %q at level %s: LevelEnabled(TRACE..CRITICAL), TraceEnabled()..CriticalEnabled() are %s, not %s", i, name, wire.LevelNames[lvl], res.Enabled, want)
	}
	return nil
}

func classifyHistory(x *X, h *history) (inherit, blocked, passed, explicit bool) {
	for _, p := range h.hops {
		own := h.m.ownOuts(p.name)
		_ = own
		if len(p.want) == 0 {
			blocked = true
		} else {
			passed = true
		}
	}
	for _, o := range h.c.Ops {
		switch o.K {
		case "setlevel", "setouts":
			explicit = true
		}
	}
	return
}

func init() {
	add(Prop{
		ID:   "C01",
		Rule: "random histories of configurations, lookups, SetLevel, SetOutputs and messages by all 13 methods on nested loggers with capturing outputs, compared with a reference model of levels; non-trivial: at least one message passed, one was held back, and a level was inherited or changed",
	}, func(t *rapid.T) wire.Case {
		return genHistory(t, ctl{cfgs: [2]int{0, 2}, ops: [2]int{6, 45}, pLevel: 14, pOuts: 8, pQuery: 18, pGet: 12, pCfg: 2, pWriter: 5})
	}, func(x *X, c *wire.Case) error {
		r := x.Run("plain", c)
		h, err := play(c, r, checkQuery)
		if err != nil {
			return err
		}
		var pass, block, inherited bool
		for _, p := range h.hops {
			x.Class("level:%s", wire.LevelNames[p.level])
			should := p.lvl >= p.level
			if should && len(p.want) == 0 {
				continue
			}
			if should != p.emitted() {
				return fmt.Errorf("%v: emitted: %v, should be: %v", p, p.emitted(), should)
			}
			if should {
				pass = true
			} else {
				block = true
			}
			x.Class("emitted:%v", should)
		}
		for _, o := range c.Ops {
			if o.K == "setlevel" {
				inherited = true
			}
			if o.K == "setcfg" && len(o.Cfg.Loggers) > 0 && len(o.Cfg.Loggers) < len(h.names)+1 {
				inherited = true
			}
		}
		x.NonTrivial(pass && block && inherited)
		return nil
	})

	add(Prop{
		ID:   "C02",
		Rule: "random histories as for C01 under a virtual clock; each delivery (output, order, logger name, level, time, text) is compared with a reference model of output routing; non-trivial: a message went to several outputs or to inherited ones",
	}, func(t *rapid.T) wire.Case {
		return genHistory(t, ctl{cfgs: [2]int{1, 2}, ops: [2]int{6, 40}, pLevel: 4, pOuts: 10, pQuery: 0, pGet: 12, pCfg: 2, pWriter: 6, pArm: 6, keep: true, bubble: true})
	}, func(x *X, c *wire.Case) error {
		r := x.Run("plain", c)
		h, err := play(c, r, nil)
		if err != nil {
			return err
		}
		if h.fired > 0 {
			x.Class("settings changed during a delivery")
		}
		for _, e := range r.Last.Evs {
			if e.E == "changed" {
				return fmt.Errorf("the event that output %s was given has changed since: from %s to %q, level %d, logger %q, time %d", e.Name, e.B, e.Msg, e.Lvl, e.Log, e.T)
			}
		}
		for _, p := range h.hops {
			if !p.emitted() && len(p.want) == 0 {
				continue
			}
			if p.lvl >= p.level != p.emitted() && !(p.lvl >= p.level && len(p.want) > 0) {
				continue // a matter of levels, C01
			}
			if err := p.exact(); err != nil {
				return err
			}
			for _, e := range p.sends {
				if e.Log != p.name || e.Lvl != p.lvl || string(e.Msg) != p.text || e.T < p.res.Now || e.T > p.res.Now2 {
					return fmt.Errorf("%v: delivered as logger %q, level %d, text %q, time %d (called at %d..%d)", p, e.Log, e.Lvl, e.Msg, e.T, p.res.Now, p.res.Now2)
				}
			}
			if len(p.want) > 1 {
				x.Class("several outputs")
				x.NonTrivial(true)
			}
			if len(p.want) > 0 && p.want[0][0] == 'e' {
				if l := listed(p.cfg, p.name); l == nil || len(l.Outs) == 0 {
					x.Class("inherited")
					x.NonTrivial(true)
				}
			}
		}
		return nil
	})

	add(Prop{
		ID:    "C03",
		Rule:  "one configuration and one series of settings and messages, executed after different series of lookups (none, all ancestors first, random ones before and after the configuration); the observations must be equal to each other, and identity of loggers must be that of their names; non-trivial: the lookups differ and a message passes through inheritance",
		Kinds: "plain",
	}, genLookup, checkLookup)
}

// lookupCase is one program with several series of lookups.
type lookupCase struct {
	Pre  [][]string // lookups before the configuration, per variant
	Mid  [][]string // after it
	Cfgs []*wire.Cfg
	Body []wire.Op // setlevel, setouts, newout, log, query: L is an index into Names
	Name []string
	Many wire.Op // lookups that follow every series of lookups but that of variant 0
}

func genLookup(t *rapid.T) lookupCase {
	var k lookupCase
	nm := names(t, 1, 6)
	if chance(t, 30) {
		nm = append(nm, "root")
	}
	k.Name = nm
	all := append([]string{"", "root"}, nm...)
	for _, x := range nm {
		all = append(all, ancestors(x)...)
	}
	for i := flat(t, 1, 2); i > 0; i-- {
		k.Cfgs = append(k.Cfgs, genCfg(t, nm, true))
	}
	// variant 0: every ancestor from the root downwards, after the configuration
	var ref []string
	for _, x := range nm {
		an := ancestors(x)
		for i := len(an) - 1; i >= 0; i-- {
			ref = append(ref, an[i])
		}
	}
	k.Pre = append(k.Pre, nil)
	k.Mid = append(k.Mid, ref)
	for v := flat(t, 1, 3); v > 0; v-- {
		k.Pre = append(k.Pre, subset(t, all, 0, 5))
		k.Mid = append(k.Mid, subset(t, all, 0, 5))
	}
	if chance(t, 6) {
		k.Many = getMany(t, nm)
	}
	tok, no := 0, 0
	for i := flat(t, 3, 20); i > 0; i-- {
		s := flat(t, 0, len(nm)-1)
		switch flat(t, 0, 9) {
		case 0:
			k.Body = append(k.Body, wire.Op{K: "query", L: s})
		case 1:
			lvl := flat(t, wire.All, wire.Off)
			k.Body = append(k.Body, wire.Op{K: "setlevel", L: s, Lvl: lvl})
		case 2:
			if chance(t, 50) {
				k.Body = append(k.Body, wire.Op{K: "newout", N: no, Name: fmt.Sprintf("n%d", no)}, wire.Op{K: "setouts", L: s, Outs: []string{fmt.Sprintf("@%d", no)}})
				no++
			}
		default:
			k.Body = append(k.Body, logTok(t, s, tok))
			tok++
		}
	}
	return k
}

func checkLookup(x *X, k *lookupCase) error {
	type seen struct {
		Refs []string
		Con  int
		Log  []string
		Lvl  int
		En   string
	}
	var ref []seen
	for v := range k.Pre {
		c := wire.Case{}
		slot := map[string]int{}
		nslot := 0
		get := func(name string) int {
			c.Ops = append(c.Ops, wire.Op{K: "get", L: nslot, Name: name})
			nslot++
			return nslot - 1
		}
		for _, x := range k.Pre[v] {
			get(x)
		}
		for i, cf := range k.Cfgs {
			c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
			if i < len(k.Cfgs)-1 && v%2 == 1 {
				for _, x := range k.Mid[v] {
					get(x)
				}
			}
		}
		for _, x := range k.Mid[v] {
			get(x)
		}
		if v > 0 && k.Many.K != "" {
			c.Ops = append(c.Ops, k.Many)
		}
		body := make([]wire.Op, len(k.Body))
		copy(body, k.Body)
		// in variant 0 all loggers are obtained before the body, otherwise when first used
		if v%2 == 0 {
			for _, x := range k.Name {
				slot[x] = get(x)
			}
		}
		for i := range body {
			o := body[i]
			if o.K != "newout" {
				x := k.Name[o.L]
				if _, ok := slot[x]; !ok || v == 3 {
					slot[x] = get(x)
				}
				o.L = slot[x]
			}
			c.Ops = append(c.Ops, o)
		}
		r := x.Run("plain", &c)
		var obs []seen
		ids := map[string]int{}
		back := map[int]string{}
		h, err := play(&c, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
			if o.K == "get" {
				nm := norm(o.Name)
				if id, ok := ids[nm]; ok && id != res.ID {
					return fmt.Errorf("GetLogger(%q) returned two different loggers", o.Name)
				}
				if b, ok := back[res.ID]; ok && b != nm {
					return fmt.Errorf("GetLogger returned the same logger for %q and %q", b, nm)
				}
				ids[nm], back[res.ID] = res.ID, nm
			}
			if o.K == "getmany" {
				x.Class("many lookups")
			}
			if o.K == "query" {
				obs = append(obs, seen{Lvl: res.Lvl, En: res.Enabled})
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("lookups %d: %w", v, err)
		}
		for _, p := range h.hops {
			s := seen{Refs: p.refs, Con: p.con}
			for _, e := range p.sends {
				s.Log = append(s.Log, e.Log)
			}
			obs = append(obs, s)
			if len(p.refs) > 0 && p.cfg != nil && listed(p.cfg, p.name) == nil {
				x.NonTrivial(true)
				x.Class("inherited")
			}
			// a configured parent governs
			if par := nearestListed(p.cfg, p.name); par != "" && par != p.name && len(h.m.lvl) == 0 && len(h.m.outs) == 0 {
				if (p.lvl >= p.level) != p.emitted() && len(p.want) > 0 {
					return fmt.Errorf("lookups %d (%v, %v): %v: emitted: %v, though %q governs", v, k.Pre[v], k.Mid[v], p, p.emitted(), par)
				}
			}
		}
		if v == 0 {
			ref = obs
		} else if !reflect.DeepEqual(ref, obs) {
			for i := range ref {
				if !reflect.DeepEqual(ref[i], obs[i]) {
					return fmt.Errorf("observation %d depends on the lookups: %+v after lookups %v / %v, %+v after %v / %v", i, ref[i], k.Pre[0], k.Mid[0], obs[i], k.Pre[v], k.Mid[v])
				}
			}
		}
	}
	return nil
}

func nearestListed(c *wire.Cfg, name string) string {
	for _, a := range append([]string{name}, ancestors(name)...) {
		if listed(c, a) != nil {
			return a
		}
	}
	return ""
}
