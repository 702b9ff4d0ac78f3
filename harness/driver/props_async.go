package driver

import (
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// sent is one message as one output should hold it.
type sent struct {
	text string
	a, b int // order numbers of the logging call
	thr  int
	must bool // it may not be missing
	may  bool // it may be there
}

// interleaved checks that a stream consists of the messages of the threads,
// each whole and in the order of its thread, that a message whose call returned
// before another's began comes first, and that only messages that may be there
// are and those that must be are. It returns how many there are.
func interleaved(stream string, threads [][]sent) (int, error) {
	next := make([]int, len(threads))
	maxA, maxText := -1, ""
	n := 0
	for pos := 0; pos < len(stream); {
		found := false
		for t := range threads {
			for k := next[t]; k < len(threads[t]); k++ {
				m := &threads[t][k]
				if strings.HasPrefix(stream[pos:], m.text) {
					if !m.may {
						return n, fmt.Errorf("message %q should not be there", cut(m.text, 80))
					}
					if m.b < maxA {
						return n, fmt.Errorf("message %q comes after %q, which was logged later", cut(m.text, 80), cut(maxText, 80))
					}
					if m.a > maxA {
						maxA, maxText = m.a, m.text
					}
					next[t] = k + 1
					pos += len(m.text)
					found = true
					n++
					break
				}
				if m.must {
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			var exp []string
			for t := range threads {
				if next[t] < len(threads[t]) {
					exp = append(exp, cut(threads[t][next[t]].text, 60))
				}
			}
			return n, fmt.Errorf("at byte %d of %d: %q is not the next message of any thread (%q)", pos, len(stream), cut(stream[pos:], 120), exp)
		}
	}
	for t := range threads {
		for k := next[t]; k < len(threads[t]); k++ {
			if m := &threads[t][k]; m.must {
				return n, fmt.Errorf("message %q of thread %d is missing, after %d messages", cut(m.text, 80), t, n)
			}
		}
	}
	return n, nil
}

// backups of a rolling output found in a tree, oldest first by number.
func numbered(tree Tree, file, mode string) (paths []string) {
	dir, base := filepath.Split(file)
	type nb struct {
		n int
		p string
	}
	var l []nb
	for p, i := range tree {
		d, b := filepath.Split(p)
		if d != dir || i.Kind != "f" {
			continue
		}
		label, ok := labelOf(b, base, mode)
		if !ok {
			continue
		}
		if v, err := strconv.Atoi(label); err == nil {
			l = append(l, nb{v, p})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	for _, x := range l {
		paths = append(paths, x.p)
	}
	return
}

// labelOf is the label in a backup's name.
func labelOf(name, base, mode string) (string, bool) {
	if mode == "prefix" {
		if strings.HasSuffix(name, "."+base) {
			return strings.TrimSuffix(name, "."+base), true
		}
		return "", false
	}
	if strings.HasPrefix(name, base+".") {
		return strings.TrimPrefix(name, base+"."), true
	}
	return "", false
}

// wholeStream of an output: backups by number, then the current file; or the console.
func wholeStream(r *Result, tree Tree, d map[string]string) (string, int) {
	if d["type"] == "console" {
		return string(r.Out), 0
	}
	var b strings.Builder
	ps := numbered(tree, d["file"], d["name_mode"])
	for _, p := range ps {
		b.Write(tree[p].Data)
	}
	b.Write(tree[d["file"]].Data)
	return b.String(), len(ps)
}

// asyncOut draws an asynchronous output.
func asyncOut(t *rapid.T, i int, typ string) map[string]string {
	o := map[string]string{"name": fmt.Sprintf("o%d", i), "type": typ, "format": "f0", "async": "true"}
	switch flat(t, 0, 5) {
	case 0:
	case 1:
		o["queue_size"] = pick(t, "0", "-1", "x", "1000", "100001")
	default:
		o["queue_size"] = fmt.Sprint(pick(t, 1, 1, 2, 3, 5, 10, 64))
	}
	switch flat(t, 0, 6) {
	case 0:
	case 1:
		o["batch_num"] = pick(t, "0", "-3", "y", "500", "501")
	default:
		o["batch_num"] = fmt.Sprint(pick(t, 1, 1, 2, 3, 4, 7, 20, 21, 100))
	}
	if typ != "console" {
		o["file"] = fmt.Sprintf("log/x%d.log", i)
		o["size"], o["pattern"] = "100M", "2006"
	}
	return o
}

func batchOf(d map[string]string) int {
	n, _ := strconv.Atoi(d["batch_num"])
	if n <= 0 {
		return 20
	}
	if n > 500 {
		return 500
	}
	return n
}

var msgLayouts = []string{"%{msg}", "%{msg}", "[%{lvl}]%{msg}", "%{module}:%{msg}", "%{msg}%{msg}"}

func genMsg(t *rapid.T, thr, i int) *wire.Msg {
	m := &wire.Msg{T: thr, I: i}
	switch flat(t, 0, 19) {
	case 0:
		m.Len = pick(t, 4095, 4096, 4097, 8192)
	case 1:
		m.Len = pick(t, 60000, 65536, 131072)
		if chance(t, 5) {
			m.Len = pick(t, 300000, 1100000)
		}
	case 2, 3, 4, 5:
		m.Len = flat(t, 30, 600)
	}
	return m
}

// genStall makes writes to files take their time: virtual time in a bubble.
func genStall(t *rapid.T, bubble bool) *wire.Fault {
	f := &wire.Fault{Dir: "log", Kinds: "write"}
	for k := flat(t, 1, 6); k > 0; k-- {
		var d int64
		switch {
		case chance(t, 40):
		case bubble:
			d = pick(t, int64(flat(t, 1, 2000))*1e6, int64(flat(t, 1, 90))*1e9, 1e9, 3e9, 5e9, 10e9, 31e9, 600e9)
		default:
			d = pick(t, int64(flat(t, 1, 2000))*1e3, int64(flat(t, 1, 12))*1e6)
		}
		f.Stall = append(f.Stall, d)
	}
	return f
}

// kindOf is the kind of worker a case needs.
func kindOf(f *wire.Fault) string {
	if f != nil {
		return "fault"
	}
	return "plain"
}

func genC10(t *rapid.T) wire.Case {
	c := wire.Case{}
	if chance(t, 25) {
		c.Procs = flat(t, 1, 2)
	}
	if chance(t, 25) {
		// with pauses, under a virtual clock
		c.Bubble, c.Start = true, 1.6e9
	}
	if chance(t, 10) || c.Bubble && chance(t, 40) {
		c.Fault = genStall(t, c.Bubble)
	}
	cf := &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": pick(t, msgLayouts...)}}}
	no := flat(t, 1, 3)
	var on []string
	for i := 0; i < no; i++ {
		typ := pick(t, "size_rolling_file", "console", "time_rolling_file")
		if typ == "console" && i > 0 {
			typ = "size_rolling_file"
		}
		o := asyncOut(t, i, typ)
		if typ == "size_rolling_file" && chance(t, 40) {
			o["size"] = fmt.Sprint(flat(t, 1, 3000))
			o["backups"] = "20"
		}
		if chance(t, 15) {
			delete(o, "async")
		}
		if typ == "console" && o["async"] != "" && !c.Bubble && chance(t, 30) {
			c.Slow = flat(t, 1, 2)
		}
		cf.Outputs = append(cf.Outputs, o)
		on = append(on, o["name"])
	}
	nm := []string{"root", "a", "a/b"}
	cf.Loggers = []wire.CfgLogger{{Name: "root", Level: "all", Outs: on}}
	if chance(t, 30) {
		cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: "a", Outs: subset(t, on, 1, no)})
	}
	open(&c, cf, nm)
	i := 0
	main := func(k int) {
		for ; k > 0; k-- {
			m, lvl := method(t)
			c.Ops = append(c.Ops, wire.Op{K: "log", L: flat(t, 0, 2), M: m, Lvl: lvl, Msg: genMsg(t, 0, i)})
			i++
			if c.Bubble && chance(t, 12) {
				c.Ops = append(c.Ops, wire.Op{K: "sleep", D: pick(t, 1e9, 4999999999, 5e9, int64(flat(t, 1, 12000))*1e6)})
			}
		}
	}
	many := chance(t, 2) // threads or messages
	thr := 0
	for ph := flat(t, 1, 3); ph > 0; ph-- {
		main(flat(t, 0, 30))
		// a goroutine that waits for a mutex holds the virtual clock, hence one at a time
		if chance(t, 75) && (c.Fault == nil || !c.Bubble) {
			var par [][]wire.Op
			hk, hn := 8, 25
			if many {
				hk, hn = pick(t, 3, 60), pick(t, 25, 700)
				if hk > 8 {
					hn = 25
				}
			}
			for k := flat(t, 1, hk); k > 0; k-- {
				thr++
				var ops []wire.Op
				for n := flat(t, 1, hn); n > 0; n-- {
					m, lvl := method(t)
					o := wire.Op{K: "log", L: flat(t, 0, 2), M: m, Lvl: lvl, Msg: &wire.Msg{T: thr, I: len(ops)}, Quiet: true}
					if !many {
						o.Msg = genMsg(t, thr, len(ops))
					}
					ops = append(ops, o)
					if chance(t, 5) {
						ops = append(ops, wire.Op{K: "gosched", N: 1, Quiet: true})
					}
					if c.Bubble && chance(t, 5) {
						ops = append(ops, wire.Op{K: "sleep", D: pick(t, 1e9, 5e9, int64(flat(t, 1, 7000))*1e6), Quiet: true})
					}
				}
				par = append(par, ops)
			}
			c.Ops = append(c.Ops, wire.Op{K: "par", Par: par})
		}
	}
	shut(&c)
	return c
}

// directLoc is the function of the worker that logs if no other site is asked for.
var directLoc = wire.Loc{File: "worker_test.go", Line: 1, Func: "github.com/xtfly/log4g/verif/worker.direct"}

// perThread collects, for an output, the messages each thread sent to it.
// Thread 0 is the main one; decide sets must and may.
func (h *history) perThread(d map[string]string, decide func(m *sent)) [][]sent {
	threads := [][]sent{nil}
	cfg := h.m.cfg
	put := func(t int, o *wire.Op, a, b int) {
		lvl := wire.MethodLevel(o)
		name := h.names[o.L]
		for _, ref := range h.m.deliveries(name, lvl) {
			if od := h.m.outDef(ref); od != nil && od["name"] == d["name"] && lvl >= threshold(d) {
				e := &event{pid: h.r.Pid, prog: h.r.Prog, name: name, lvl: lvl, msg: o.Text(), fields: map[string]interface{}{}, t: h.time(h.c.Start*1e9 + 1), loc: &directLoc}
				if o.W > 0 {
					e.fields = h.wfld[o.W]
				}
				if !h.c.Bubble {
					e.t = time.Now()
				}
				s := sent{text: renderBy(cfg, d["format"], e), a: a, b: b, thr: t, must: true, may: true}
				if decide != nil {
					decide(&s)
				}
				threads[t] = append(threads[t], s)
			}
		}
	}
	base := 0
	for i := range h.c.Ops {
		o := &h.c.Ops[i]
		res := h.r.Op[i]
		switch o.K {
		case "log":
			put(0, o, res.A, res.B)
		case "par":
			for t := range o.Par {
				threads = append(threads, nil)
				for k := range o.Par[t] {
					if s := res.Seq[t][k]; o.Par[t][k].K == "log" {
						put(base+t+1, &o.Par[t][k], s[0], s[1])
					}
				}
			}
			base += len(o.Par)
		}
	}
	return threads
}

func checkC10(x *X, c *wire.Case) error {
	r := x.Run(kindOf(c.Fault), c)
	h, err := play(c, r, nil)
	if err != nil {
		return err
	}
	tree := ReadTree(r.Dir)
	for _, d := range h.m.cfg.Outputs {
		got, backups := wholeStream(r, tree, d)
		threads := h.perThread(d, nil)
		if backups == 20 {
			// the oldest may have been dropped
			x.Class("retention")
			continue
		}
		k, err := interleaved(got, threads)
		if err != nil {
			return fmt.Errorf("output %v: %w", d, err)
		}
		if d["async"] == "true" {
			q, _ := strconv.Atoi(d["queue_size"])
			if q <= 0 {
				q = 1000
			}
			x.Class("queue overrun:%v", k > q)
			x.Class("several producers:%v", len(threads) > 2)
			x.Class("target:%s slow:%v", d["type"], c.Slow > 0 && d["type"] == "console" || c.Fault != nil && d["type"] != "console")
			x.NonTrivial(k > q && len(threads) > 2)
		}
	}
	return nil
}

func genC11(t *rapid.T) wire.Case {
	c := wire.Case{Bubble: true, Barrier: true, Start: 1.6e9, Snap: "log"}
	hi := 18
	if chance(t, 5) {
		hi = 90
	}
	cf := &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": pick(t, msgLayouts...)}}}
	no := flat(t, 1, 3)
	for i := 0; i < no; i++ {
		typ := pick(t, "size_rolling_file", "console", "time_rolling_file", "size_rolling_file")
		if typ == "console" && i > 0 {
			typ = "size_rolling_file"
		}
		o := asyncOut(t, i, typ)
		o["file"] = fmt.Sprintf("log/d%d/x.log", i)
		o["backups"] = "20"
		o["size"] = pick(t, "1", "10", "100", "300", "10M")
		o["pattern"] = pick(t, "2006", "2006-01-02T15-04", "2006-01-02T15-04-05", "2006-01-02")
		if hi > 20 {
			o["size"], o["pattern"] = "10M", "2006" // retention must not drop anything
		}
		if chance(t, 25) {
			o["threshold"] = levelText(t, flat(t, wire.Trace, wire.Error))
		}
		if chance(t, 40) {
			o["batch_num"] = fmt.Sprint(flat(t, 2, 6))
		}
		cf.Outputs = append(cf.Outputs, o)
	}
	nm := []string{}
	for i := 0; i < no; i++ {
		x := fmt.Sprintf("l%d", i)
		nm = append(nm, x)
		cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: x, Level: "all", Outs: []string{fmt.Sprintf("o%d", i)}})
	}
	if no > 1 && chance(t, 50) {
		cf.Loggers[0].Outs = append(cf.Loggers[0].Outs, "o1")
	}
	long := chance(t, 1)
	if long {
		// fill the largest batch that there can be
		for _, d := range cf.Outputs {
			d["size"], d["pattern"] = "10M", "2006" // retention must not drop anything
		}
		d := cf.Outputs[0]
		d["batch_num"] = pick(t, "499", "500", "501", "502", "1000", "100000")
		delete(d, "threshold")
	}
	c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
	for i, x := range nm {
		if chance(t, 30) {
			c.Ops = append(c.Ops, wire.Op{K: "sleep", D: int64(flat(t, 0, 6000)) * 1e6})
		}
		c.Ops = append(c.Ops, wire.Op{K: "get", L: i, Name: x})
	}
	for i, k := 0, flat(t, 3, hi); i < k; {
		switch flat(t, 0, 4) {
		case 0:
			c.Ops = append(c.Ops, wire.Op{K: "sleep", D: pick(t, int64(flat(t, 1, 7000))*1e6, 1e9, 2e9, 4999999999, 5e9, 6e9, 60e9, 3600e9, 36*3600e9)})
		case 1:
			// a burst
			s := flat(t, 0, no-1)
			for b := flat(t, 2, 6); b > 0 && i < k; b-- {
				m, lvl := method(t)
				c.Ops = append(c.Ops, wire.Op{K: "log", L: s, M: m, Lvl: lvl, Msg: genMsg(t, 0, i)})
				i++
			}
		default:
			m, lvl := method(t)
			c.Ops = append(c.Ops, wire.Op{K: "log", L: flat(t, 0, no-1), M: m, Lvl: lvl, Msg: genMsg(t, 0, i)})
			i++
		}
	}
	if long {
		for i, k := 0, pick(t, 501, 510, 1003); i < k; i++ {
			c.Ops = append(c.Ops, wire.Op{K: "log", L: 0, M: "Error", Msg: &wire.Msg{I: 1000 + i, Len: i % 3}})
		}
	}
	c.Ops = append(c.Ops, wire.Op{K: "sleep", D: pick[int64](t, 6e9, 8e9, 3600e9)}, wire.Op{K: "sleep", D: pick[int64](t, 1e9, 7e9, 86400e9)})
	return c
}

const flushWithin = 6e9

func checkC11(x *X, c *wire.Case) error {
	r := x.Run("plain", c)
	type state struct {
		ends  []int64 // cumulative lengths of the accepted messages
		times []int64
		size  int64 // on the target
		snap  string
	}
	st := map[string]*state{}
	_, err := play(c, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
		if o.K != "log" && o.K != "sleep" || h.m.cfg == nil {
			return nil
		}
		for _, d := range h.m.cfg.Outputs {
			s := st[d["name"]]
			if s == nil {
				s = &state{}
				if d["type"] == "console" {
					s.snap = "0"
				}
				st[d["name"]] = s
			}
			if o.K == "log" {
				p := h.hops[len(h.hops)-1]
				for k := range p.want {
					if p.defs[k]["name"] == d["name"] && p.lvl >= threshold(d) {
						last := int64(0)
						if len(s.ends) > 0 {
							last = s.ends[len(s.ends)-1]
						}
						s.ends = append(s.ends, last+int64(len(renderBy(p.cfg, d["format"], h.event(p)))))
						s.times = append(s.times, res.Now)
					}
				}
			}
			var size int64
			snap := ""
			if d["type"] == "console" {
				size = res.Out
				snap = fmt.Sprint(size)
			} else {
				dir := filepath.Dir(d["file"])
				for _, f := range res.Files {
					if strings.HasPrefix(f.Path, dir+"/") {
						size += f.Size
						snap += fmt.Sprintln(f.Path, f.Size, f.Mode)
					} else if f.Path == dir {
						snap += fmt.Sprintln("exists", f.Mode)
					}
				}
			}
			written := sort.Search(len(s.ends), func(k int) bool { return s.ends[k] > size })
			if size > 0 && (written == 0 || s.ends[written-1] != size) {
				return fmt.Errorf("op %d: output %v: %d bytes on the target are not a number of whole messages (%v)", i, d, size, s.ends)
			}
			if size < s.size {
				return fmt.Errorf("op %d: output %v: the target shrank from %d to %d bytes", i, d, s.size, size)
			}
			if k := len(s.ends) - written; k >= batchOf(d) {
				return fmt.Errorf("op %d: output %v: %d messages are not on the target though a batch is full", i, d, k)
			}
			if written < len(s.ends) && res.Now2-s.times[written] > flushWithin {
				return fmt.Errorf("op %d: output %v: message %d is not on the target after %.3f s", i, d, written, float64(res.Now2-s.times[written])/1e9)
			}
			idle := o.K == "sleep" && len(s.ends) > 0 && s.size == s.ends[len(s.ends)-1] || len(s.ends) == 0
			if idle && snap != s.snap && (o.K == "sleep" || len(s.ends) == 0) {
				return fmt.Errorf("op %d: output %v: nothing is buffered, but the target changes from %q to %q", i, d, s.snap, snap)
			}
			if o.K == "sleep" && len(s.ends) > 0 {
				x.Class("idle:%v flushed:%v", idle, size > s.size)
				if size > s.size {
					x.NonTrivial(true)
				}
			}
			if o.K == "log" && size > s.size {
				x.Class("full batch")
			}
			s.size, s.snap = size, snap
		}
		return nil
	})
	return err
}

// C12: rounds of creating, logging and closing.
type closeCase struct {
	Race   bool // with the race detector
	Bubble bool
	Procs  int
	Slow   int
	Stall  *wire.Fault `json:",omitempty"`
	Rounds []closeRound
}

type closeRound struct {
	Cfg    *wire.Cfg
	Before []wire.Op
	Par    [][]wire.Op
	After  []wire.Op
	Set    *wire.Cfg `json:",omitempty"` // installed at the same time as the outputs are closed
}

func genC12(t *rapid.T) closeCase {
	k := closeCase{Bubble: chance(t, 20)}
	if chance(t, 15) {
		k.Stall = genStall(t, k.Bubble)
	}
	if chance(t, 30) {
		k.Procs = flat(t, 1, 3)
	}
	if !k.Bubble && k.Stall == nil && chance(t, 6) {
		k.Race = true
	}
	console := chance(t, 40)
	if console && !k.Bubble && chance(t, 40) {
		k.Slow = 1
	}
	rounds := flat(t, 1, 6)
	thr := 0
	for n := 0; n < rounds; n++ {
		r := closeRound{Cfg: &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": pick(t, msgLayouts...)}}}}
		var on []string
		for i := flat(t, 1, 3); i > 0; i-- {
			typ := pick(t, "size_rolling_file", "time_rolling_file", "cap", "memory")
			if console && n == 0 && i == 1 {
				typ = "console"
			}
			o := map[string]string{"name": fmt.Sprintf("o%d", i), "type": typ, "format": "f0"}
			if typ != "cap" && typ != "memory" {
				o = asyncOut(t, i, typ)
				if typ != "console" {
					o["file"] = fmt.Sprintf("log/r%d/x%d.log", n, i)
					if typ == "size_rolling_file" && chance(t, 35) {
						o["size"], o["backups"] = fmt.Sprint(pick(t, flat(t, 1, 300), flat(t, 1, 3000))), "20"
					}
				}
				if chance(t, 12) {
					delete(o, "async")
				}
			}
			r.Cfg.Outputs = append(r.Cfg.Outputs, o)
			on = append(on, o["name"])
		}
		r.Cfg.Loggers = []wire.CfgLogger{{Name: "root", Level: "all", Outs: on}}
		if k.Race {
			// outputs that are built meanwhile
			var ops []wire.Op
			for i := flat(t, 1, 8); i > 0; i-- {
				o := map[string]string{"name": fmt.Sprintf("late%d", i), "type": "size_rolling_file", "format": "f0", "async": pick(t, "", "true"), "file": fmt.Sprintf("log/r%d/late%d.log", n, i), "size": "100M"}
				r.Cfg.Outputs = append(r.Cfg.Outputs, o)
				r.Cfg.Loggers = append(r.Cfg.Loggers, wire.CfgLogger{Name: fmt.Sprintf("late/%d.%d", n, i), Outs: []string{o["name"]}})
				ops = append(ops, wire.Op{K: "get", L: 10 + i, Name: fmt.Sprintf("late/%d.%d", n, i), Quiet: true})
			}
			r.Par = append(r.Par, ops)
		}
		msg := func(thr, i int) wire.Op {
			m, lvl := method(t)
			return wire.Op{K: "log", L: 0, M: m, Lvl: lvl, Msg: genMsg(t, thr, i)}
		}
		i := 0
		for q := flat(t, 0, 8); q > 0; q-- {
			o := msg(thr, i)
			r.Before = append(r.Before, o)
			i++
			if k.Bubble && chance(t, 20) {
				r.Before = append(r.Before, wire.Op{K: "sleep", D: int64(flat(t, 1, 7000)) * 1e6})
			}
		}
		main := thr
		thr++
		one := k.Bubble && k.Stall != nil // a goroutine that waits for a mutex holds the virtual clock
		set := chance(t, 20) && !one
		if set {
			for q := flat(t, 0, 60); q > 0; q-- {
				o := msg(main, i)
				r.Before = append(r.Before, o)
				i++
			}
			o := asyncOut(t, 9, "size_rolling_file")
			o["file"] = fmt.Sprintf("log/r%d/set.log", n)
			r.Set = &wire.Cfg{Formats: r.Cfg.Formats, Outputs: []map[string]string{o}, Loggers: []wire.CfgLogger{{Name: "root", Level: "all", Outs: []string{o["name"]}}}}
			ops := []wire.Op{{K: "setcfg", Cfg: r.Set, Quiet: true}}
			if chance(t, 30) {
				ops = append([]wire.Op{{K: "gosched", N: flat(t, 1, 60), Quiet: true}}, ops...)
			}
			r.Par = append(r.Par, ops)
		}
		if set || k.Race || chance(t, 70) && !one {
			for q := flat(t, 1, 5); q > 0 && !set; q-- {
				var ops []wire.Op
				for j := flat(t, 1, 20); j > 0; j-- {
					o := msg(thr, len(ops))
					o.Quiet = true
					ops = append(ops, o)
				}
				thr++
				r.Par = append(r.Par, ops)
			}
			for q := flat(t, 1, 3); q > 0; q-- {
				var ops []wire.Op
				for j := flat(t, 1, 2); j > 0; j-- {
					if chance(t, 50) {
						ops = append(ops, wire.Op{K: "gosched", N: flat(t, 1, 60), Quiet: true})
					}
					if !set && chance(t, 25) {
						ops = append(ops, wire.Op{K: "closeouts", Name: "root", Quiet: true})
					} else {
						ops = append(ops, wire.Op{K: "close", Quiet: true})
					}
					if chance(t, 50) {
						// what is there as soon as Close returned
						ops = append(ops, wire.Op{K: "ls", Name: "log", N: 1})
					}
				}
				r.Par = append(r.Par, ops)
			}
		} else {
			for q := flat(t, 1, 2); q > 0; q-- {
				r.After = append(r.After, wire.Op{K: "close"})
			}
		}
		for q := flat(t, 0, 3); q > 0 && !set; q-- {
			r.After = append(r.After, msg(main, i))
			i++
		}
		if chance(t, 30) {
			r.After = append(r.After, wire.Op{K: "close"})
		}
		if k.Bubble && chance(t, 40) {
			r.After = append(r.After, wire.Op{K: "sleep", D: int64(flat(t, 1, 20000)) * 1e6})
		}
		k.Rounds = append(k.Rounds, r)
	}
	return k
}

func checkC12(x *X, k *closeCase) error {
	c := &wire.Case{Bubble: k.Bubble, Procs: k.Procs, Slow: k.Slow, Fault: k.Stall}
	if k.Bubble {
		c.Start = 1.6e9
	}
	type span struct{ from, to int }
	var at []span
	c.Ops = append(c.Ops, wire.Op{K: "get", L: 0, Name: "root"})
	for _, r := range k.Rounds {
		s := span{from: len(c.Ops)}
		c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: r.Cfg}, wire.Op{K: "outputs", Name: "root"})
		c.Ops = append(c.Ops, r.Before...)
		if len(r.Par) > 0 {
			c.Ops = append(c.Ops, wire.Op{K: "par", Par: r.Par})
		}
		c.Ops = append(c.Ops, r.After...)
		// what is there now is what Close left; nothing closes these outputs again before the next round
		c.Ops = append(c.Ops, wire.Op{K: "ls", Name: "log"})
		s.to = len(c.Ops)
		at = append(at, s)
	}
	c.Ops = append(c.Ops, wire.Op{K: "mem"})
	kind := kindOf(k.Stall)
	if k.Race {
		kind = "race"
	}
	r := x.Run(kind, c)
	if err := r.Crash(); err != nil {
		return err
	}
	tree := ReadTree(r.Dir)
	conDone := -1
	var conThreads [][]sent
	mem := map[int]string{}
	for _, e := range r.Op[len(c.Ops)-1].Evs {
		mem[e.ID] = string(e.B)
	}
	for ri := range k.Rounds {
		rd := &k.Rounds[ri]
		// order numbers of the closes
		type call struct{ a, b int }
		var closes []call
		each := func(f func(o *wire.Op, a, b, thr int)) {
			base := 0
			for i := at[ri].from; i < at[ri].to; i++ {
				o := &c.Ops[i]
				if o.K != "par" {
					f(o, r.Op[i].A, r.Op[i].B, 0)
					continue
				}
				for t := range o.Par {
					for j := range o.Par[t] {
						f(&o.Par[t][j], r.Op[i].Seq[t][j][0], r.Op[i].Seq[t][j][1], base+t+1)
					}
				}
			}
		}
		each(func(o *wire.Op, a, b, _ int) {
			if o.K == "close" || o.K == "closeouts" {
				closes = append(closes, call{a, b})
			}
		})
		// what the closing threads saw
		type look struct {
			a    int // when the Close began
			data map[string]string
		}
		var looks []look
		for i := at[ri].from; i < at[ri].to; i++ {
			o := &c.Ops[i]
			if o.K != "par" {
				continue
			}
			for q := range r.Res {
				res := &r.Res[q]
				if res.Op != i || res.Thr == 0 || o.Par[res.Thr-1][res.Sub].K != "ls" {
					continue
				}
				l := look{a: r.Op[i].Seq[res.Thr-1][res.Sub-1][0], data: map[string]string{}}
				for _, f := range res.Files {
					l.data[f.Path] = string(f.Data)
				}
				looks = append(looks, l)
				x.Class("looked at as Close returned; SetConfig in parallel: %v", rd.Set != nil)
			}
		}
		files := map[string]int64{}
		for _, f := range r.Op[at[ri].to-1].Files {
			files[f.Path] = f.Size
		}
		ids := r.Op[at[ri].from+1].IDs
		for oi, d := range rd.Cfg.Outputs {
			if strings.HasPrefix(d["name"], "late") {
				// nothing is logged to it
				if f := tree[d["file"]]; len(f.Data) > 0 {
					return fmt.Errorf("round %d, output %v: its file should be empty, has %q", ri, d, cut(string(f.Data), 200))
				}
				x.Class("outputs built while others are closed, race detector")
				continue
			}
			threads := make([][]sent, len(rd.Par)+1)
			racing, late := 0, ""
			rolled := numbered(tree, d["file"], d["name_mode"])
			each(func(o *wire.Op, a, b, thr int) {
				if o.K != "log" {
					return
				}
				e := &event{pid: r.Pid, prog: r.Prog, name: "root", lvl: wire.MethodLevel(o), msg: o.Text(), fields: map[string]interface{}{}}
				s := sent{text: renderBy(rd.Cfg, d["format"], e), a: a, b: b, thr: thr, may: true, must: len(closes) > 0}
				for _, cl := range closes {
					if b > cl.a {
						s.must = false // a Close had begun
					}
					if cl.b < a && d["async"] == "true" {
						s.may = false
					}
				}
				if d["async"] != "true" {
					s.must = true
				}
				if s.may && !s.must {
					racing++
				}
				if rd.Set != nil {
					s.must = true // before everything else
				}
				for _, l := range looks {
					if s.must && b < l.a && d["file"] != "" && late == "" && (d["backups"] == "" || d["async"] == "true" && rd.Set == nil && len(rolled) < 20) {
						found := strings.Contains(l.data[d["file"]], s.text)
						for _, p := range rolled {
							found = found || strings.Contains(l.data[p], s.text)
						}
						if !found {
							late = o.Text()
						}
					}
				}
				threads[thr] = append(threads[thr], s)
			})
			if late != "" {
				return fmt.Errorf("round %d, output %v: message %s was logged before Close was called and was not in the file when Close returned", ri, d, cut(late, 60))
			}
			var got string
			switch d["type"] {
			case "console":
				got = string(r.Out)
				conThreads, conDone = threads, ri
			case "memory":
				got = mem[ids[oi]]
			case "cap":
				continue
			default:
				for _, p := range append(rolled, d["file"]) {
					if n, f := files[p], tree[p]; n != int64(len(f.Data)) {
						return fmt.Errorf("round %d, output %v: %s had %d bytes after the last Close, and %d at the end", ri, d, p, n, len(f.Data))
					}
				}
				if len(rolled) == 20 {
					continue // the oldest may have been dropped
				}
				got, _ = wholeStream(r, tree, d)
			}
			if _, err := interleaved(got, threads); err != nil {
				return fmt.Errorf("round %d, output %v: %w", ri, d, err)
			}
			if d["async"] == "true" {
				x.Class("target:%s stalling:%v virtual clock:%v", d["type"], k.Stall != nil, k.Bubble)
				x.Class("racing with Close:%v", racing > 0)
				if len(rolled) > 0 {
					x.Class("rolls, racing with Close:%v, looked at as it returned:%v", racing > 0, len(looks) > 0)
				}
				x.NonTrivial(racing > 0 || len(rd.Par) == 0 && len(rd.Before) > 0)
			}
		}
	}
	if conDone < 0 && len(r.Out) > 0 {
		return fmt.Errorf("the console should be empty, has %q", cut(string(r.Out), 200))
	}
	_ = conThreads
	return nil
}

func init() {
	add(Prop{
		ID:    "C10",
		Kinds: "plain,fault",
		Rule:  "up to 8 goroutines and the main one log generated messages (up to 128 KB) to asynchronous console, size- and time-rolling outputs with queue_size and batch_num from 1 up, also with a slow console or slow files and with rolls in between; after Close each output must hold every message once, whole, in an order compatible with the logging calls' order numbers; non-trivial: more messages than the queue holds, from several producers",
	}, genC10, checkC10)
	add(Prop{
		ID:   "C11",
		Rule: "messages and pauses from 1 ms to 36 h under a virtual clock, all goroutines settled after each step; from the size of the targets after each step: fewer than batch_num messages unwritten, none for longer than 6 s, whole messages only, and no change at all of the target while nothing is buffered; non-trivial: a pause flushed something",
	}, genC11, checkC11)
	add(Prop{
		ID:    "C12",
		Kinds: "plain,fault,race",
		Rule:  "rounds of new outputs (some on slow files, some built while outputs are closed, under the race detector), messages and Manager.Close, sequentially and from several goroutines at once; by order numbers of the calls, messages logged before a Close began must be there, those logged to an asynchronous output after one returned must not, all whole and in order, and a file does not change after the last Close; a hang or panic is a violation; non-trivial: messages raced with Close, or Close came right after messages",
	}, genC12, checkC12)
}
