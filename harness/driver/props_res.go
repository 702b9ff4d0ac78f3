package driver

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// C27: what closed and replaced outputs leave behind: nothing. No garbage is
// collected during a case, as that would close forgotten files.

func genResCfg(t *rapid.T, nm []string, bubble bool, k int) *wire.Cfg {
	c := &wire.Cfg{}
	fn := []string{"f0", "f1"}[:flat(t, 1, 2)]
	for _, n := range fn {
		f := map[string]string{"name": n, "type": "text", "layout": pick(t, "%{msg}\n", "%{time} %{msg}\n")}
		if n == "f1" && chance(t, 15) {
			f["type"] = pick(t, "badf", "nosuch")
		}
		c.Formats = append(c.Formats, f)
	}
	no := flat(t, 1, 6)
	for i := 0; i < no; i++ {
		o := map[string]string{"name": fmt.Sprintf("o%d", i), "format": pick(t, fn...)}
		async := 40
		switch flat(t, 0, 9) {
		case 0, 1, 2, 3:
			o["type"] = "size_rolling_file"
			o["size"] = pick(t, "1", "30", "100", "400", "2K", "100M")
		case 4, 5:
			o["type"] = "time_rolling_file"
			o["pattern"] = "20060102150405"
		case 6:
			o["type"] = "console"
			async = 60
		case 7:
			o["type"] = pick(t, "memory", "cap")
			async = 0
		case 8:
			o["type"] = "syslog"
			if bubble {
				o["type"] = "console"
			}
		default:
			o["type"] = pick(t, "bad", "nosuch", "cap")
			async = 0
		}
		if chance(t, async) {
			o["async"] = "true"
			if chance(t, 50) {
				o["queue_size"] = pick(t, "1", "2", "1000")
			}
			if chance(t, 70) {
				o["batch_num"] = pick(t, "1", "1", "2", "20")
			}
		}
		if rolling(o) {
			// every configuration may go on with the files of the previous ones
			o["file"] = fmt.Sprintf("d/o%d.log", i)
			if chance(t, 30) {
				o["file"] = fmt.Sprintf("d%d/s/o%d.log", k, i)
			}
			if chance(t, 70) {
				o["backups"] = pick(t, "1", "1", "2", "3")
			}
			if chance(t, 50) {
				o["archive"] = pick(t, "zip", "gzip")
			}
			if chance(t, 30) {
				o["name_mode"] = "prefix"
			}
		}
		c.Outputs = append(c.Outputs, o)
	}
	all := make([]string, no)
	for i := range all {
		all[i] = fmt.Sprintf("o%d", i)
	}
	ln := nm
	if !contains(ln, "root") && chance(t, 80) {
		ln = append([]string{"root"}, nm...)
	}
	for _, n := range subset(t, ln, 1, len(ln)) {
		c.Loggers = append(c.Loggers, wire.CfgLogger{Name: n, Level: pick(t, "all", "all", "info", "off"), Outs: subset(t, all, 1, 4)})
	}
	return c
}

func rolling(o map[string]string) bool {
	return o["type"] == "size_rolling_file" || o["type"] == "time_rolling_file"
}

func genRes(t *rapid.T) wire.Case {
	c := wire.Case{TZ: "UTC", NoGC: true, Syslog: 1}
	if chance(t, 40) {
		c.Bubble, c.Start, c.Syslog = true, 1600000000, 0
	} else if chance(t, 10) {
		c.Syslog = 0
	}
	for _, f := range []string{"d/.log4g_tmp", "d/o0.log.1.zip", "d/1.o0.log.gz", "d/o1.log"} {
		// where an archive cannot be made, a file not be opened or moved
		if chance(t, 6) {
			c.Files = append(c.Files, wire.File{Path: f, Content: []byte("x")})
			if f != "d/.log4g_tmp" {
				c.Files[len(c.Files)-1].Dir = true
			}
		}
	}
	if chance(t, 30) {
		f := &wire.Fault{Dir: "/", Errno: pick(t, errnos...), Short: chance(t, 50)}
		f.Kinds = pick(t, "", "", "create", "open", "write", "write", "close", "rename", "readdir", "chmod", "remove", "mkdir", "stat", "create,write", "rename,remove")
		hi := 150
		switch f.Kinds {
		case "":
		case "open", "write", "create,write":
			hi = 40
		default:
			hi = 8
		}
		f.From = flat(t, 1, hi)
		f.To = f.From + pick(t, 1, 1, 2, 5, 20, 1000)
		c.Fault = f
	}
	nm := names(t, 1, 4)
	slots := map[string]int{}
	get := func(n string) wire.Op {
		s, ok := slots[n]
		if !ok {
			s = len(slots)
			slots[n] = s
		}
		return wire.Op{K: "get", L: s, Name: n}
	}
	ask := append([]string{"root"}, nm...)
	msg := 0
	log := func() wire.Op {
		o := wire.Op{K: "log", L: flat(t, 0, len(slots)-1), M: pick(t, "Info", "Error", "Critical", "Debug"), Msg: &wire.Msg{I: msg, Len: pick(t, 0, 0, 50, 150, 500, 3000)}, Quiet: true}
		msg++
		return o
	}
	pause := func() {
		if c.Bubble && chance(t, 40) {
			c.Ops = append(c.Ops, wire.Op{K: "sleep", D: int64(pick(t, 1, 1, 2, 5, 11)) * 1e9, Quiet: true})
		}
	}
	res := func() { c.Ops = append(c.Ops, wire.Op{K: "res"}) }
	for k := flat(t, 1, 6); k > 0; k-- {
		if chance(t, 30) {
			c.Ops = append(c.Ops, get(pick(t, ask...)))
		}
		cf := genResCfg(t, nm, c.Bubble, k)
		if chance(t, 12) {
			cf = spoil(t, cf)
		}
		switch flat(t, 0, 5) {
		case 0:
			c.Ops = append(c.Ops, wire.Op{K: "loadcfg", Cfg: cf, Data: jsonText(t, cf), Ext: "json"})
		case 1:
			f := fmt.Sprintf("cfg%d.json", k)
			c.Files = append(c.Files, wire.File{Path: f, Content: jsonText(t, cf)})
			c.Ops = append(c.Ops, wire.Op{K: "loadfile", Cfg: cf, Name: f})
		default:
			c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: cf})
		}
		res()
		for i := flat(t, 1, 3); i > 0; i-- {
			c.Ops = append(c.Ops, get(pick(t, ask...)))
		}
		for i := flat(t, 0, 25); i > 0; i-- {
			switch j := flat(t, 0, 99); {
			case j < 70:
				pause()
				c.Ops = append(c.Ops, log())
			case j < 76:
				res()
			case j < 82:
				c.Ops = append(c.Ops, wire.Op{K: "outputs", Name: pick(t, append(ask, "nosuch")...)})
			case j < 85:
				c.Ops = append(c.Ops, get(pick(t, ask...)))
			case j < 88:
				c.Ops = append(c.Ops, wire.Op{K: "close"})
				if chance(t, 60) {
					res()
				}
			case j < 94:
				p := wire.Op{K: "par"}
				for g := flat(t, 2, 5); g > 0; g-- {
					var l []wire.Op
					for j := flat(t, 1, 4); j > 0; j-- {
						switch flat(t, 0, 3) {
						case 0:
							l = append(l, wire.Op{K: "outputs", Name: pick(t, ask...), Quiet: true})
						case 1:
							o := get(pick(t, ask...))
							o.Quiet = true
							l = append(l, o)
						default:
							// of a logger that there is already
							o := log()
							o.L = firstSlot(c.Ops)
							l = append(l, o)
						}
					}
					p.Par = append(p.Par, l)
				}
				c.Ops = append(c.Ops, p)
				// all slots are in use afterwards
				var known []string
				for n := range slots {
					known = append(known, n)
				}
				sort.Strings(known)
				for _, n := range known {
					c.Ops = append(c.Ops, get(n))
				}
			case j < 97:
				res()
			default:
				pause()
			}
		}
		if chance(t, 50) {
			res()
		}
	}
	c.Ops = append(c.Ops, wire.Op{K: "close"}, wire.Op{K: "res"})
	if chance(t, 30) {
		// Close once more closes again what was opened again
		c.Ops = append(c.Ops, log(), wire.Op{K: "close"}, wire.Op{K: "res"})
	}
	return c
}

// firstSlot is one that is in use for sure.
func firstSlot(ops []wire.Op) int {
	for i := range ops {
		if ops[i].K == "get" {
			return ops[i].L
		}
	}
	infra("no logger yet")
	return 0
}

// holder is the reference: what may be held at most.
type holder struct {
	cfg    *wire.Cfg
	syslog bool
	looked map[string]bool
	built  map[string]map[string]string
	shut   map[string]bool // closed, and not used since
}

// build is what a request for the outputs of a logger builds.
func (h *holder) build(name string) {
	if h.cfg == nil {
		return
	}
	for _, l := range h.cfg.Loggers {
		if l.Name != name {
			continue
		}
		for _, on := range l.Outs {
			o := byName(h.cfg.Outputs, on)
			f := byName(h.cfg.Formats, o["format"])
			if f["type"] != "text" {
				return
			}
			switch o["type"] {
			case "bad", "nosuch":
				return
			case "syslog":
				if !h.syslog {
					return
				}
			}
			if h.built[on] == nil {
				h.built[on] = o
			}
		}
	}
}

// may is the most that may be held.
func (h *holder) may() (gor, socks int, files []string) {
	for n, o := range h.built {
		if h.shut[n] {
			continue
		}
		if o["async"] == "true" && o["type"] != "syslog" {
			gor += 4 // one at present
		}
		if o["type"] == "syslog" {
			socks++
		}
		if rolling(o) {
			files = append(files, filepath.Clean(o["file"]))
		}
	}
	sort.Strings(files)
	return
}

// used: messages were sent, which may open again what is not asynchronous.
func (h *holder) used() {
	for n, o := range h.built {
		if o["async"] != "true" || o["type"] == "syslog" {
			delete(h.shut, n)
		}
	}
}

func checkRes(x *X, in *wire.Case) error {
	c := *in
	c.Ops = append([]wire.Op(nil), in.Ops...)
	h := &holder{syslog: c.Syslog == 1, looked: map[string]bool{}, built: map[string]map[string]string{}, shut: map[string]bool{}}
	look := func(n string) {
		for _, l := range append([]string{n}, ancestors(n)...) {
			if !h.looked[l] {
				h.looked[l] = true
				h.build(l)
			}
		}
	}
	closed, replaced, reopened := 0, 0, 0
	for i := range c.Ops {
		o := &c.Ops[i]
		step := func(o *wire.Op) {
			switch o.K {
			case "get":
				look(o.Name)
			case "outputs":
				h.build(o.Name)
			case "log":
				if len(h.shut) > 0 {
					reopened++
				}
				h.used()
			}
		}
		switch o.K {
		case "setcfg", "loadcfg", "loadfile":
			if !valid(o.Cfg) {
				break
			}
			if g, s, f := h.may(); g+s+len(f) > 0 {
				replaced++
			}
			h.cfg, h.built, h.shut = o.Cfg, map[string]map[string]string{}, map[string]bool{}
			for n := range h.looked {
				h.build(n)
			}
		case "close":
			if g, s, f := h.may(); g+s+len(f) > 0 {
				closed++
			}
			for n := range h.built {
				h.shut[n] = true
			}
		case "par":
			for _, l := range o.Par {
				for j := range l {
					step(&l[j])
				}
			}
			h.used()
		case "res":
			o.N, o.W, o.Outs = h.may()
			o.D = 10e6
		default:
			step(o)
		}
	}
	kind := "plain"
	if c.Fault != nil {
		kind = "fault"
	}
	r := x.Run(kind, &c)
	if err := r.Crash(); err != nil {
		return err
	}
	for i := range c.Ops {
		o, q := &c.Ops[i], r.Op[i]
		if o.K != "res" {
			continue
		}
		if q == nil {
			return fmt.Errorf("op %d: no result", i)
		}
		if q.Gor > o.N {
			return fmt.Errorf("op %d: %d goroutines more than in the beginning, at most %d can be in use", i, q.Gor, o.N)
		}
		if q.Socks > o.W {
			return fmt.Errorf("op %d: %d sockets more than in the beginning, at most %d can be in use", i, q.Socks, o.W)
		}
		left := map[string]int{}
		for _, f := range o.Outs {
			left[f]++
		}
		for _, f := range q.Fds {
			if left[f]--; left[f] < 0 {
				return fmt.Errorf("op %d: file %q is open, only %q can be in use; open are %q", i, f, o.Outs, q.Fds)
			}
		}
	}
	x.NonTrivial(closed+replaced > 0)
	if closed > 0 {
		x.Class("closed")
	}
	if replaced > 0 {
		x.Class("replaced")
	}
	if replaced > 2 {
		x.Class("replaced several times")
	}
	if reopened > 0 {
		x.Class("used after Close")
	}
	if len(c.Files) > 0 {
		x.Class("with files in the way or configuration files")
	}
	for i := range r.Res {
		for _, f := range r.Res[i].Fired {
			x.Class("fault:%s", strings.Fields(f)[0])
		}
	}
	if c.Bubble {
		x.Class("virtual clock")
	}
	return nil
}

func init() {
	add(Prop{ID: "C27", Kinds: "plain,fault",
		Rule: "One to six configurations, some refused, with rolling (small limits, archives, sometimes with something in the way), console, memory, own and system log outputs, asynchronous or not; lookups, requests for outputs, logging, also by several goroutines, and Close in between, in part with failing operations on files; no garbage is collected. A case is non-trivial if a configuration with outputs that hold a file, a socket or a goroutine was replaced or closed."},
		genRes, checkRes)
}
