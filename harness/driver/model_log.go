package driver

import (
	"bytes"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
)

func levelOf(s string) int {
	for i := 1; i < len(wire.LevelNames); i++ {
		if strings.EqualFold(s, wire.LevelNames[i]) {
			return i
		}
	}
	return wire.Uninit
}

// logModel says what loggers do, from the configuration in force and the
// later SetLevel and SetOutputs calls.
type logModel struct {
	cfg   *wire.Cfg // nil: the built-in one
	epoch int
	lvl   map[string]int      // by SetLevel
	outs  map[string][]string // by SetOutputs: "@n"
}

func newLogModel() *logModel {
	return &logModel{lvl: map[string]int{}, outs: map[string][]string{}}
}

func norm(name string) string {
	if name == "" {
		return "root"
	}
	return name
}

// listed logger of the configuration that can be built.
func listed(c *wire.Cfg, name string) *wire.CfgLogger {
	if c == nil {
		return nil
	}
	for i := range c.Loggers {
		if l := &c.Loggers[i]; l.Name == name {
			for _, o := range l.Outs {
				if !buildable(c, o) {
					return nil
				}
			}
			return l
		}
	}
	return nil
}

func byName(l []map[string]string, name string) map[string]string {
	for _, m := range l {
		if m["name"] == name {
			return m
		}
	}
	return nil
}

func hasField(layout string) bool {
	for _, p := range scan(layout) {
		if p.IsVar {
			return true
		}
	}
	return false
}

func buildable(c *wire.Cfg, out string) bool {
	o := byName(c.Outputs, out)
	if o == nil {
		return false
	}
	f := byName(c.Formats, o["format"])
	if f == nil {
		return false
	}
	switch f["type"] {
	case "text":
		if !hasField(f["layout"]) {
			return false
		}
	case "capf":
	default:
		return false
	}
	switch o["type"] {
	case "console", "memory", "size_rolling_file", "time_rolling_file", "syslog", "cap":
		return true
	}
	return false
}

func (m *logModel) isListed(name string) bool {
	if m.cfg == nil {
		return name == "root"
	}
	return listed(m.cfg, name) != nil
}

func (m *logModel) setConfig(c *wire.Cfg) {
	if c == nil {
		c = &wire.Cfg{}
	}
	old := *m
	m.cfg = c
	m.epoch++
	for _, tab := range []func(string){func(n string) { delete(m.lvl, n) }, func(n string) { delete(m.outs, n) }} {
		for n := range old.lvl {
			if old.isListedIn(old.cfg, n) || m.isListed(n) {
				tab(n)
			}
		}
		for n := range old.outs {
			if old.isListedIn(old.cfg, n) || m.isListed(n) {
				tab(n)
			}
		}
	}
}

func (m *logModel) isListedIn(c *wire.Cfg, name string) bool {
	if c == nil {
		return name == "root"
	}
	return listed(c, name) != nil
}

func (m *logModel) ownLevel(name string) int {
	if l, ok := m.lvl[name]; ok {
		return l
	}
	if m.cfg == nil {
		if name == "root" {
			return wire.All
		}
		return wire.Uninit
	}
	if l := listed(m.cfg, name); l != nil {
		return levelOf(l.Level)
	}
	if name == "root" {
		return wire.Debug
	}
	return wire.Uninit
}

// ownOuts are "e<epoch>:<name>" for outputs of a configuration, "@<n>" for
// given ones, "init" and "console" for the root's of no configuration.
func (m *logModel) ownOuts(name string) []string {
	if o, ok := m.outs[name]; ok {
		return o
	}
	if m.cfg == nil {
		if name == "root" {
			return []string{"init"}
		}
		return nil
	}
	if l := listed(m.cfg, name); l != nil {
		var r []string
		for _, o := range l.Outs {
			r = append(r, fmt.Sprintf("e%d:%s", m.epoch, o))
		}
		return r
	}
	if name == "root" {
		return []string{"console"}
	}
	return nil
}

func (m *logModel) level(name string) int {
	name = norm(name)
	for _, a := range append([]string{name}, ancestors(name)...) {
		if l := m.ownLevel(a); l != wire.Uninit {
			return l
		}
	}
	return wire.Off
}

func (m *logModel) effOuts(name string) []string {
	name = norm(name)
	for _, a := range append([]string{name}, ancestors(name)...) {
		if o := m.ownOuts(a); len(o) > 0 {
			return o
		}
	}
	return nil
}

// deliveries of a message.
func (m *logModel) deliveries(name string, lvl int) []string {
	if lvl < m.level(name) {
		return nil
	}
	return m.effOuts(name)
}

func (m *logModel) outDef(ref string) map[string]string {
	if i := strings.Index(ref, ":"); i > 0 && ref[0] == 'e' && m.cfg != nil {
		return byName(m.cfg.Outputs, ref[i+1:])
	}
	return nil
}

// hop is what happened to one message.
type hop struct {
	op    int
	o     *wire.Op
	res   *wire.Res
	name  string // logger
	lvl   int
	text  string
	want  []string // deliveries expected
	defs  []map[string]string
	sends []wire.Ev // to capturing outputs
	refs  []string  // where they went
	con   int       // how often the text is on the console
	conW  int       // how often it should be
	isTok bool
	level int // effective level of the logger by the model
	cfg   *wire.Cfg
	skip  int
}

// history runs a single-threaded case and pairs it with the model. See the
// properties for what is made of it.
type history struct {
	c      *wire.Case
	r      *Result
	m      *logModel
	hops   []*hop
	names  map[int]string                 // slot to name
	refOf  map[int]string                 // id of a capturing output to its reference
	wfld   map[int]map[string]interface{} // fields of writers
	fields map[int]map[string]interface{} // fields in force at an op
	skip   map[string]int                 // SetCallerSkip
	memID  map[string]int                 // reference of an output to its identity, from GetLoggerOutputs
	arms   map[string]*wire.Op            // reference of an output to what it will do
	fired  int
}

var tokRe = regexp.MustCompile(`^<m[0-9]+>$`)

// play walks through the results; each is called before the model sees the op.
func play(c *wire.Case, r *Result, each func(h *history, i int, o *wire.Op, res *wire.Res) error) (*history, error) {
	h := &history{c: c, r: r, m: newLogModel(), names: map[int]string{}, refOf: map[int]string{},
		wfld: map[int]map[string]interface{}{}, fields: map[int]map[string]interface{}{}, memID: map[string]int{}, skip: map[string]int{}, arms: map[string]*wire.Op{}}
	if err := r.Crash(); err != nil {
		return h, err
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		res := r.Op[i]
		if res == nil {
			if o.Quiet {
				continue
			}
			infra("no result of op %d", i)
		}
		switch o.K {
		case "get":
			h.names[o.L] = norm(o.Name)
		case "mkwriter":
			h.wfld[o.W] = map[string]interface{}{}
			for _, f := range o.Fields {
				h.wfld[o.W][f.Key] = f.Val.Go()
			}
		case "outputs":
			if l := listed(h.m.cfg, norm(o.Name)); l != nil && res.Err == "" && len(l.Outs) == len(res.IDs) {
				for k, on := range l.Outs {
					h.memID[fmt.Sprintf("e%d:%s", h.m.epoch, on)] = res.IDs[k]
				}
			}
		case "skip":
			h.skip[h.names[o.L]] = o.N
		case "setlevel":
			h.m.lvl[h.names[o.L]] = o.Lvl
		case "setouts":
			outs := append([]string{}, o.Outs...)
			for k, x := range outs {
				if strings.HasPrefix(x, "$") {
					outs[k] = fmt.Sprintf("e%d:%s", h.m.epoch, x[1:])
				}
			}
			h.m.outs[h.names[o.L]] = outs
		case "arm":
			ref := fmt.Sprintf("@%d", o.N)
			h.arms[ref] = o
		case "newout":
			h.refOf[res.IDs[0]] = fmt.Sprintf("@%d", o.N)
		case "setcfg":
			if res.Err != "" {
				return h, fmt.Errorf("op %d: a valid configuration is rejected: %s", i, res.Err)
			}
			h.m.setConfig(o.Cfg)
		}
		for _, e := range res.Evs {
			if e.E == "newout" {
				h.refOf[e.ID] = fmt.Sprintf("e%d:%s", h.m.epoch, e.Name)
				if ep := e.Attr["ep"]; ep != "" {
					h.refOf[e.ID] = "e" + ep + ":" + e.Name
				}
			}
		}
		if o.K == "log" {
			if o.W > 0 {
				h.fields[i] = h.wfld[o.W]
			}
			name := h.names[o.L]
			lvl := wire.MethodLevel(o)
			p := &hop{op: i, o: o, res: res, name: name, lvl: lvl, text: o.Text(), want: h.m.deliveries(name, lvl), level: h.m.level(name), cfg: h.m.cfg, skip: h.skip[name]}
			for _, w := range p.want {
				d := h.m.outDef(w)
				p.defs = append(p.defs, d)
				if w == "init" || w == "console" || d["type"] == "console" {
					p.conW++
				}
			}
			p.isTok = tokRe.MatchString(p.text)
			if p.isTok {
				p.con = bytes.Count(r.Out, []byte(p.text))
			}
			for _, e := range res.Evs {
				if e.E == "send" {
					ref, ok := h.refOf[e.ID]
					if !ok {
						return h, fmt.Errorf("op %d: delivered to an output nobody built: %+v", i, e)
					}
					p.sends = append(p.sends, e)
					p.refs = append(p.refs, ref)
				}
			}
			h.hops = append(h.hops, p)
			for _, w := range p.want {
				if a := h.arms[w]; a != nil {
					h.fired++
					if a.Lvl != wire.Uninit {
						h.m.lvl[h.names[a.L]] = a.Lvl
					} else {
						h.m.outs[h.names[a.L]] = a.Outs
					}
				}
				delete(h.arms, w)
			}
		} else if o.K != "par" {
			for _, e := range res.Evs {
				if e.E == "send" {
					return h, fmt.Errorf("op %d (%s) delivered a message: %+v", i, o.K, e)
				}
			}
		}
		if each != nil {
			if err := each(h, i, o, res); err != nil {
				return h, err
			}
		}
	}
	return h, nil
}

// capWant are the expected deliveries to capturing outputs.
func (p *hop) capWant() []string {
	var r []string
	for i, w := range p.want {
		if strings.HasPrefix(w, "@") || p.defs[i]["type"] == "cap" {
			r = append(r, w)
		}
	}
	return r
}

func (p *hop) String() string {
	return fmt.Sprintf("op %d: %s at %s on logger %q (effective level %s, outputs %v)", p.op, p.o.M, wire.LevelNames[p.lvl], p.name, wire.LevelNames[p.level], p.want)
}

// exact delivery to capturing outputs and the console
func (p *hop) exact() error {
	w := p.capWant()
	if len(w) != len(p.refs) || (len(w) > 0 && !reflect.DeepEqual(w, p.refs)) {
		return fmt.Errorf("%v: delivered to %v, not to %v", p, p.refs, w)
	}
	if p.isTok && p.con != p.conW {
		return fmt.Errorf("%v: %d times on the console, not %d", p, p.con, p.conW)
	}
	return nil
}

// emitted says whether the message was seen anywhere.
func (p *hop) emitted() bool { return len(p.refs) > 0 || p.con > 0 }
