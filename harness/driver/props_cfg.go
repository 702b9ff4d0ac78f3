package driver

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

var lineLayouts = []string{"%{msg}\n", "[%{module}] %{msg}\n", "%{lvl} %{msg:-8s}|\n", "%{level:-9s}%{module:q} %{msg}\n", "%{pid} %{msg}%{msg}\n", "A %{msg} B\n", "%{k}=%{msg}\n"}

// genReal draws a configuration with outputs of all kinds.
func genReal(t *rapid.T, nm []string, epoch int) *wire.Cfg {
	c := genCfg(t, nm, false)
	if chance(t, 4) {
		// nothing, or next to nothing
		switch flat(t, 0, 2) {
		case 0:
			return &wire.Cfg{}
		case 1:
			return &wire.Cfg{Formats: c.Formats}
		}
		c.Loggers = nil
	}
	for _, f := range c.Formats {
		if f["type"] == "text" {
			f["layout"] = pick(t, lineLayouts...)
		}
	}
	files := map[string]bool{}
	for i, o := range c.Outputs {
		switch flat(t, 0, 7) {
		case 0, 1:
			o["type"] = "cap"
		case 2:
			o["type"] = "memory"
		case 3:
			o["type"] = "console"
		default:
			o["type"] = pick(t, "size_rolling_file", "time_rolling_file")
			o["pattern"] = "2006"
			if o["type"] == "size_rolling_file" {
				o["size"] = "10M"
			}
			f := fmt.Sprintf("log/%s.log", pick(t, "a", "b", fmt.Sprintf("o%d", i), fmt.Sprintf("e%d", epoch)))
			if files[f] {
				f = fmt.Sprintf("log/x%d.log", i)
			}
			files[f] = true
			o["file"] = f
		}
		if o["type"] == "console" || o["file"] != "" {
			if chance(t, 45) {
				o["async"] = "true"
				if chance(t, 50) {
					o["queue_size"] = fmt.Sprint(flat(t, 1, 4))
				}
				if chance(t, 60) {
					o["batch_num"] = fmt.Sprint(flat(t, 1, 5))
				}
			}
			if chance(t, 35) {
				o["threshold"] = levelText(t, flat(t, wire.All, wire.Off))
			}
		}
		// capf has no newline
		if o["type"] != "cap" {
			f := byName(c.Formats, o["format"])
			if f["type"] == "capf" {
				f["type"], f["layout"] = "text", pick(t, lineLayouts...)
			}
		}
	}
	return c
}

// clone copies a configuration.
func clone(c *wire.Cfg) *wire.Cfg {
	var r wire.Cfg
	b, err := json.Marshal(c)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		infra("%v", err)
	}
	return &r
}

// genRealSeq draws configurations of which some differ from the one before in
// one thing only, or not at all.
func genRealSeq() func(t *rapid.T, nm []string, epoch int) *wire.Cfg {
	var prev *wire.Cfg
	return func(t *rapid.T, nm []string, epoch int) *wire.Cfg {
		if prev == nil || len(prev.Outputs) == 0 || !chance(t, 45) {
			prev = genReal(t, nm, epoch)
			return prev
		}
		c := clone(prev)
		o := pick(t, c.Outputs...)
		real := o["type"] == "console" || o["file"] != ""
		switch flat(t, 0, 9) {
		case 0, 1, 2:
			f := byName(c.Formats, o["format"])
			if f["type"] == "text" {
				f["layout"] = pick(t, lineLayouts...)
			} else {
				f["type"] = "text"
				f["layout"] = pick(t, lineLayouts...)
			}
		case 3:
			if real {
				o["threshold"] = levelText(t, flat(t, wire.All, wire.Off))
			}
		case 4:
			if real && o["async"] != "" {
				delete(o, "async")
			} else if real {
				o["async"] = "true"
			}
		case 5:
			if o["type"] == "cap" || byName(c.Formats, o["format"])["type"] == "text" {
				f := pick(t, c.Formats...)
				if o["type"] == "cap" || f["type"] == "text" {
					o["format"] = f["name"]
				}
			}
		case 6:
			if len(c.Loggers) > 0 {
				l := &c.Loggers[flat(t, 0, len(c.Loggers)-1)]
				l.Level = levelText(t, flat(t, wire.All, wire.Off))
			}
		case 7:
			if len(c.Loggers) > 0 {
				l := &c.Loggers[flat(t, 0, len(c.Loggers)-1)]
				l.Outs = []string{o["name"]}
			}
		case 8:
			if len(c.Loggers) > 1 {
				i := flat(t, 0, len(c.Loggers)-1)
				c.Loggers = append(c.Loggers[:i:i], c.Loggers[i+1:]...)
			}
		}
		prev = c
		return c
	}
}

// expected streams of files and memory outputs, and the lines on the console;
// loose are the tokens whose console lines have no configured layout.
type streams struct {
	file  map[string]string
	mem   map[string]string
	lines []string
	loose map[string]int
}

func (h *history) streams() *streams {
	s := &streams{file: map[string]string{}, mem: map[string]string{}, loose: map[string]int{}}
	for _, p := range h.hops {
		e := h.event(p)
		for i, ref := range p.want {
			d := p.defs[i]
			if ref == "init" || ref == "console" {
				s.loose[p.text]++
				continue
			}
			if d == nil || p.lvl < threshold(d) {
				continue
			}
			text := renderBy(p.cfg, d["format"], e)
			switch {
			case d["file"] != "":
				s.file[d["file"]] += text
			case d["type"] == "memory":
				s.mem[ref] += text
			case d["type"] == "console":
				s.lines = append(s.lines, text)
			}
		}
	}
	return s
}

// compare with what was found; the worker's last op but one closed everything
// and the last one reported the memory outputs.
func (h *history) compare(s *streams) error {
	t := ReadTree(h.r.Dir)
	for f, want := range s.file {
		if got := string(t[f].Data); got != want {
			return fmt.Errorf("file %s: %s", f, diff(got, want))
		}
	}
	for f, i := range t {
		if _, ok := s.file[f]; !ok && i.Kind == "f" && len(i.Data) > 0 {
			return fmt.Errorf("file %s should have no content, has %q", f, cut(string(i.Data), 300))
		}
	}
	mem := map[int]string{}
	for _, r := range h.r.Op {
		for _, e := range r.Evs {
			if e.E == "mem" {
				mem[e.ID] = string(e.B)
			}
		}
	}
	for ref, id := range h.memID {
		if got, ok := mem[id]; ok && got != s.mem[ref] {
			return fmt.Errorf("memory output %s: %s", ref, diff(got, s.mem[ref]))
		}
	}
	return h.console(s)
}

func (h *history) console(s *streams) error {
	loose := map[string]int{}
	var got []string
	for _, l := range strings.SplitAfter(string(h.r.Out), "\n") {
		if l == "" {
			continue
		}
		got = append(got, l)
	}
	want := append([]string(nil), s.lines...)
	sort.Strings(want)
	sort.Strings(got)
	var extra []string
	i := 0
	for _, g := range got {
		for i < len(want) && want[i] < g {
			return fmt.Errorf("missing on the console: %q", want[i])
		}
		if i < len(want) && want[i] == g {
			i++
			continue
		}
		extra = append(extra, g)
	}
	if i < len(want) {
		return fmt.Errorf("missing on the console: %q", want[i])
	}
	for _, l := range extra {
		tok := ""
		for _, p := range h.hops {
			if strings.Contains(l, p.text) {
				tok = p.text
			}
		}
		loose[tok]++
		if tok == "" || loose[tok] > s.loose[tok] {
			return fmt.Errorf("unexpected on the console: %q", l)
		}
	}
	for tok, k := range s.loose {
		if loose[tok] != k {
			return fmt.Errorf("%s appears %d times on the console with the default layout, not %d", tok, loose[tok], k)
		}
	}
	return nil
}

// diff describes the first difference.
func diff(got, want string) string {
	if got == want {
		return "equal"
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	a := i - 60
	if a < 0 {
		a = 0
	}
	return fmt.Sprintf("differs at byte %d of %d (expected %d): ...%q instead of ...%q", i, len(got), len(want), cut(got[a:], 200), cut(want[a:], 200))
}

func init() {
	add(Prop{
		ID:   "C04",
		Rule: "histories with 2 to 4 configurations over the same names of loggers, outputs (capturing, memory, console, rolling file; synchronous and asynchronous) and formats with other definitions, all of them or just one; after Close, files, memory outputs and console must hold exactly what the reference model of the configuration in force at each message says; non-trivial: messages were logged under at least two configurations and some output or format was redefined",
	}, func(t *rapid.T) wire.Case {
		c := genHistory(t, ctl{cfgs: [2]int{2, 4}, ops: [2]int{8, 40}, pLevel: 4, pOuts: 3, pQuery: 5, pGet: 10, pCfg: 8, pWriter: 5, cfg: genRealSeq(), outputs: true})
		c.Ops = append(c.Ops, wire.Op{K: "close"}, wire.Op{K: "mem"})
		return c
	}, func(x *X, c *wire.Case) error {
		r := x.Run("plain", c)
		last := -1
		h, err := play(c, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
			if o.K == "setcfg" {
				last = i
			}
			return checkQuery(h, i, o, res)
		})
		if err != nil {
			return err
		}
		for _, p := range h.hops {
			if err := p.exactRefs(); err != nil {
				return err
			}
			for _, e := range p.sends {
				d := p.def(h, e)
				if d == nil {
					continue
				}
				if want := renderBy(p.cfg, d["format"], h.event(p)); want != string(e.B) {
					return fmt.Errorf("%v: rendered %q, the layout in force gives %q", p, e.B, want)
				}
			}
		}
		if err := h.compare(h.streams()); err != nil {
			return err
		}
		before, after := false, false
		for _, p := range h.hops {
			if len(p.want) > 0 {
				before = before || p.op < last
				after = after || p.op > last
			}
			for _, d := range p.defs {
				x.Class("output:%s async=%s", d["type"], d["async"])
			}
		}
		x.NonTrivial(before && after)
		return nil
	})
}

// exactRefs is exact for capturing outputs only.
func (p *hop) exactRefs() error {
	q := *p
	q.isTok = false
	return q.exact()
}

// def is the definition of the output an event went to.
func (p *hop) def(h *history, e wire.Ev) map[string]string {
	ref := h.refOf[e.ID]
	for i, w := range p.want {
		if w == ref {
			return p.defs[i]
		}
	}
	return nil
}

var _ = bytes.Count
