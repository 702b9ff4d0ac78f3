package driver

import (
	"fmt"
	"slices"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C26: signals. The process sends itself SIGINT or SIGTERM at some point of a
// history, also while several goroutines log.

const survives = "survives-signal"

func genSig(t *rapid.T) wire.Case {
	c := wire.Case{TZ: "UTC", Live: true, Procs: pick(t, 0, 1, 2)}
	msg, slot := 0, 0
	text := func() *wire.Msg {
		m := &wire.Msg{I: msg}
		msg++
		if chance(t, 30) {
			m.Len = flat(t, 1, 300)
		}
		if chance(t, 3) {
			m.Len = flat(t, 1000, 70000)
		}
		return m
	}
	phase := func(p int, last bool) {
		if p == 0 && last && chance(t, 6) {
			// before any configuration
			if chance(t, 50) {
				c.Ops = append(c.Ops, wire.Op{K: "get", L: 0, Name: pick(t, "a", "root")})
			}
			c.Ops = append(c.Ops, wire.Op{K: "sig", N: pick(t, 2, 15)}, wire.Op{K: "waitflush", D: 4e9})
			return
		}
		cf := &wire.Cfg{Formats: []map[string]string{{"name": "f0", "type": "text", "layout": "%{msg}"}}}
		files := map[string]string{}
		no := flat(t, 1, 5)
		console := false
		for i := 0; i < no; i++ {
			d := map[string]string{"name": fmt.Sprintf("o%d", i), "format": "f0"}
			switch k := flat(t, 0, 9); {
			case k < 5 && (i > 0 || last):
				d["type"] = pick(t, "size_rolling_file", "time_rolling_file")
				d["file"] = fmt.Sprintf("log/p%d-%d.log", p, i)
				d["size"], d["pattern"] = "100M", "2006"
				files[d["name"]] = d["file"]
			case i == 0 && !last:
				// its being closed tells that the signal was handled
				d["type"] = "cap"
			case k < 7 && !console:
				console = true
				d["type"] = "console"
				files[d["name"]] = "-"
			default:
				d["type"] = "cap"
			}
			if d["type"] != "cap" && chance(t, 80) {
				d["async"] = "true"
				if chance(t, 70) {
					d["queue_size"] = fmt.Sprint(pick(t, 1, 2, 10, 1000, 100000))
				}
				if chance(t, 70) {
					d["batch_num"] = fmt.Sprint(pick(t, 1, 2, 3, 20, 500, 500))
				}
			}
			cf.Outputs = append(cf.Outputs, d)
		}
		var used []string
		first := slot
		targets := map[int][]string{}
		for i := flat(t, 1, 4); i > 0; i-- {
			outs := subset(t, []string{"o0", "o1", "o2", "o3", "o4"}[:no], 1, 3)
			if i == 1 && !last && !slices.Contains(outs, "o0") {
				outs = append(outs, "o0")
			}
			name := fmt.Sprintf("p%d/l%d", p, i)
			if i == 1 && chance(t, 60) {
				name = "root"
			}
			cf.Loggers = append(cf.Loggers, wire.CfgLogger{Name: name, Level: pick(t, "all", "info"), Outs: outs})
			for _, o := range outs {
				if f := files[o]; f != "" {
					targets[slot] = append(targets[slot], f)
				}
			}
			used = append(used, name)
			slot++
		}
		c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
		for i, n := range used {
			c.Ops = append(c.Ops, wire.Op{K: "get", L: first + i, Name: n})
		}
		log := func() wire.Op {
			s := flat(t, first, slot-1)
			return wire.Op{K: "log", L: s, M: pick(t, "Info", "Errorf", "Critical", "Warn"), Msg: text(), Outs: targets[s]}
		}
		for i := flat(t, 0, 20); i > 0; i-- {
			c.Ops = append(c.Ops, log())
			if chance(t, 3) {
				c.Ops = append(c.Ops, wire.Op{K: "sleep", D: int64(flat(t, 1, 20)) * 1e6})
			}
		}
		sig := wire.Op{K: "sig", N: pick(t, 2, 15)}
		if chance(t, 40) {
			par := wire.Op{K: "par"}
			for g := flat(t, 1, 4); g > 0; g-- {
				var l []wire.Op
				for i := flat(t, 1, 40); i > 0; i-- {
					l = append(l, log())
				}
				par.Par = append(par.Par, l)
			}
			l := []wire.Op{}
			for i := flat(t, 0, 20); i > 0; i-- {
				l = append(l, wire.Op{K: "gosched", N: flat(t, 1, 5)})
			}
			for i := flat(t, 0, 6); i > 0; i-- {
				l = append(l, log())
			}
			l = append(l, sig)
			if last && chance(t, 20) {
				l = append(l, wire.Op{K: "sig", N: pick(t, 2, 15)})
			}
			par.Par = append(par.Par, l)
			c.Ops = append(c.Ops, par)
		} else {
			c.Ops = append(c.Ops, sig)
		}
		c.Ops = append(c.Ops, wire.Op{K: "waitflush", D: 4e9})
	}
	// A signal must be known to be handled before the next configuration: its
	// outputs would be closed too early.
	phases := 1
	if chance(t, 30) {
		phases = flat(t, 2, 3)
	}
	for p := 0; p < phases; p++ {
		phase(p, p+1 == phases)
		if p+1 < phases && chance(t, 30) {
			// a configuration that is replaced before the signal
			c.Ops = append(c.Ops, wire.Op{K: "close"})
		}
	}
	return c
}

func checkSig(x *X, c *wire.Case) error {
	var err error
	// a slow machine is given three chances
	for try := 0; try < 3; try++ {
		var late bool
		late, err = sigOnce(x, c)
		if !late {
			return err
		}
	}
	return err
}

func sigOnce(x *X, c *wire.Case) (late bool, err error) {
	r := x.Run("plain", c)
	sigs := 0
	for i := range r.Res {
		if r.Res[i].Sig {
			sigs++
		}
	}
	// ending is what the signal is for
	ended := !r.Done && sigs > 0 && !r.Hang
	for _, s := range []string{"panic: ", "fatal error: ", "SIGSEGV"} {
		ended = ended && !strings.Contains(r.Err, s)
	}
	if !ended {
		if err := r.Crash(); err != nil {
			return false, err
		}
	}
	nontriv := false
	for i := range c.Ops {
		switch o := &c.Ops[i]; o.K {
		case "setcfg":
			if res := r.Op[i]; res != nil && res.Err != "" {
				return false, fmt.Errorf("op %d: the configuration is refused: %s", i, res.Err)
			}
			for _, d := range o.Cfg.Outputs {
				nontriv = nontriv || d["async"] == "true"
				x.Class("%s async=%s", d["type"], d["async"])
			}
		case "par":
			x.Class("signal while others log")
		case "sig":
			x.Class("signal %d", o.N)
		}
	}
	x.Class("signals handled: %s", bucket(sigs))
	x.NonTrivial(nontriv)
	if !ended {
		for i := range c.Ops {
			if c.Ops[i].K == "waitflush" && r.Op[i].S != "" {
				return true, fmt.Errorf("op %d: four seconds after the signal: %s", i, r.Op[i].S)
			}
		}
		return false, x.Known(survives, "the process survives SIGINT and SIGTERM: internal/log4g.go init subscribes to them and, after closing the outputs, does not end the process (key "+survives+")")
	}
	x.Class("the process ends")
	return false, sigEnded(c, r)
}

// sigEnded judges what a process left that ended with the signal.
func sigEnded(c *wire.Case, r *Result) error {
	sigAt := 0
	open := map[int]string{}
	for i := range r.Res {
		if r.Res[i].Sig && sigAt == 0 {
			sigAt = r.Res[i].A
		}
		if op := r.Res[i].Op; op >= 0 && op < len(c.Ops) && c.Ops[op].K == "setcfg" {
			sigAt = 0
		}
		if r.Res[i].Op != -2 {
			continue
		}
		for _, e := range r.Res[i].Evs {
			switch e.E {
			case "newout":
				open[e.ID] = e.Name
			case "close":
				delete(open, e.ID)
			}
		}
	}
	for id, n := range open {
		return fmt.Errorf("output %s (instance %d) was not closed when the process ended", n, id)
	}
	tree := ReadTree(r.Dir)
	for i := range r.Res {
		res := &r.Res[i]
		if res.Op < 0 || res.Op >= len(c.Ops) || res.B == 0 || res.B > sigAt {
			continue
		}
		o := &c.Ops[res.Op]
		if res.Thr > 0 {
			o = &o.Par[res.Thr-1][res.Sub]
		}
		if o.K != "log" {
			continue
		}
		for _, f := range o.Outs {
			text := string(r.Out)
			if f != "-" {
				text = string(tree[f].Data)
			}
			if !strings.Contains(text, o.Msg.Text()) {
				return fmt.Errorf("the process ended, but message %v, logged before the signal, is not in %s", *o.Msg, f)
			}
		}
	}
	return nil
}

func init() {
	add(Prop{ID: "C26", Rule: "histories of configurations (files and console, mostly asynchronous with small and large queues and batches, and own outputs) and messages, then SIGINT or SIGTERM, " +
		"at rest or while up to five goroutines log, up to three times; all messages whose call returned before the signal have to be on their targets well before the flush interval. " +
		"Non-trivial: an asynchronous output."}, genSig, checkSig)
}
