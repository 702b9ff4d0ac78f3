package driver

import (
	"fmt"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/xtfly/log4g/verif/wire"
)

// part of a layout: literal text, or a field with an optional spec.
type part struct {
	Lit   string
	Verb  string
	Spec  string
	IsVar bool
}

// scan reads a layout: %{verb} or %{verb:spec}, verb of letters and digits,
// spec at least one character, up to the first } that does not follow a
// backslash, on one line. Everything else is literal.
func scan(layout string) (parts []part) {
	start, i := 0, 0 // literal text up to i
	flush := func() {
		if i > start {
			parts = append(parts, part{Lit: layout[start:i]})
		}
	}
	for i < len(layout) {
		if strings.HasPrefix(layout[i:], "%{") {
			j := i + 2
			for j < len(layout) && isAlnum(layout[j]) {
				j++
			}
			if j > i+2 && j < len(layout) {
				if layout[j] == '}' {
					flush()
					parts = append(parts, part{IsVar: true, Verb: layout[i+2 : j]})
					i = j + 1
					start = i
					continue
				}
				if layout[j] == ':' {
					end := -1
					for k := j + 2; k < len(layout); k++ {
						if layout[k-1] == '\n' {
							break
						}
						if layout[k] == '}' && layout[k-1] != '\\' {
							end = k
							break
						}
					}
					if end > 0 {
						flush()
						parts = append(parts, part{IsVar: true, Verb: layout[i+2 : j], Spec: layout[j+1 : end]})
						i = end + 1
						start = i
						continue
					}
				}
			}
		}
		i++
	}
	flush()
	return
}

func isAlnum(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

// event as the layout sees it.
type event struct {
	pid    int
	prog   string
	name   string
	lvl    int
	msg    string
	t      time.Time
	fields map[string]interface{}
	loc    *wire.Loc
}

const defaultTime = "2006-01-02T15:04:05.000Z07:00"

// splitFunc splits a function name into package and function.
func splitFunc(s string) (pkg, fun string) {
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	return s[:i+1+j], s[i+1+j+1:]
}

func (e *event) value(verb string) interface{} {
	switch verb {
	case "pid":
		return e.pid
	case "program":
		return filepath.Base(e.prog)
	case "module":
		return e.name
	case "msg":
		return e.msg
	case "level":
		return wire.LevelNames[e.lvl]
	case "lvl":
		return wire.LevelShort[e.lvl]
	case "line":
		return e.loc.Line
	case "longfile":
		return e.loc.File
	case "shortfile":
		return filepath.Base(e.loc.File)
	}
	switch verb {
	case "longpkg", "shortpkg", "longfunc", "shortfunc":
		pkg, fun := splitFunc(e.loc.Func)
		switch verb {
		case "longpkg":
			return pkg
		case "shortpkg":
			return path.Base(pkg)
		case "longfunc":
			return fun
		}
		// the type parameters of a generic function have dots, too
		base := strings.TrimSuffix(fun, "[...]")
		return fun[strings.LastIndex(base, ".")+1:]
	}
	return e.fields[verb]
}

// render is what a layout must produce.
func render(layout string, e *event) string {
	var b strings.Builder
	for _, p := range scan(layout) {
		switch {
		case !p.IsVar:
			b.WriteString(p.Lit)
		case p.Verb == "time":
			l := p.Spec
			if l == "" {
				l = defaultTime
			}
			b.WriteString(e.t.Format(l))
		case p.Spec != "":
			fmt.Fprintf(&b, "%"+p.Spec, e.value(p.Verb))
		default:
			fmt.Fprintf(&b, "%v", e.value(p.Verb))
		}
	}
	return b.String()
}

// renderBy renders by the format with this name.
func renderBy(c *wire.Cfg, format string, e *event) string {
	f := byName(c.Formats, format)
	if f["type"] == "capf" {
		return "<capf:" + f["name"] + ":" + e.msg + ">"
	}
	return render(f["layout"], e)
}

func (h *history) event(p *hop) *event {
	e := &event{pid: h.r.Pid, prog: h.r.Prog, name: p.name, lvl: p.lvl, msg: p.text, t: h.time(p.res.Now), fields: map[string]interface{}{}}
	if p.o.W > 0 {
		e.fields = h.fields[p.op]
	}
	if p.skip < len(p.res.Frames) {
		e.loc = &p.res.Frames[p.skip]
	}
	return e
}

func (h *history) time(ns int64) time.Time {
	return time.Unix(0, ns).In(h.loc())
}

func (h *history) loc() *time.Location {
	tz := h.c.TZ
	if tz == "" {
		tz = "UTC"
	}
	l, err := time.LoadLocation(tz)
	if err != nil {
		infra("%v", err)
	}
	return l
}

// threshold of an output definition.
func threshold(d map[string]string) int {
	if d["type"] == "memory" || d["type"] == "cap" {
		return wire.All
	}
	if l := levelOf(d["threshold"]); l != wire.Uninit {
		return l
	}
	return wire.All
}
