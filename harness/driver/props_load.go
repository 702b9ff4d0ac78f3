package driver

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// attempt to load a configuration.
type attempt struct {
	Form string // go, nil, bytes, file
	Cfg  *wire.Cfg
	Data []byte
	Ext  string // of bytes
	Path string // of file
	Mode int    // of file
	Kind string // missing, dir, file
}

type loadCase struct {
	Base *wire.Cfg
	Name []string
	Try  []attempt
	// equivalence: the same configuration in several forms
	Eq    bool
	Lvl   []int
	Slots int
}

// parsed is the independent reading of a document; ok is false if it does not parse.
func parsed(data []byte, typ string) (c *wire.Cfg, ok bool) {
	type logger struct {
		Name    string   `yaml:"name" json:"name"`
		Level   string   `yaml:"level" json:"level"`
		Outputs []string `yaml:"outputs" json:"outputs"`
	}
	var m struct {
		Formats []map[string]string `yaml:"formats" json:"formats"`
		Outputs []map[string]string `yaml:"outputs" json:"outputs"`
		Loggers []logger            `yaml:"loggers" json:"loggers"`
	}
	defer func() {
		if recover() != nil {
			c, ok = nil, false
		}
	}()
	var err error
	switch strings.ToLower(typ) {
	case "yaml", "yml":
		err = yaml.Unmarshal(data, &m)
	case "json":
		err = json.Unmarshal(data, &m)
	default:
		return nil, false
	}
	if err != nil {
		return nil, false
	}
	c = &wire.Cfg{Formats: m.Formats, Outputs: m.Outputs}
	for _, l := range m.Loggers {
		c.Loggers = append(c.Loggers, wire.CfgLogger{Name: l.Name, Level: l.Level, Outs: l.Outputs})
	}
	return c, true
}

// valid by the rules of the property.
func valid(c *wire.Cfg) bool {
	if c == nil {
		return false
	}
	f, o, l := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, x := range c.Formats {
		if f[x["name"]] {
			return false
		}
		f[x["name"]] = true
	}
	for _, x := range c.Outputs {
		if o[x["name"]] || !f[x["format"]] {
			return false
		}
		o[x["name"]] = true
	}
	for _, x := range c.Loggers {
		if l[x.Name] {
			return false
		}
		l[x.Name] = true
		for _, n := range x.Outs {
			if !o[n] {
				return false
			}
		}
	}
	return true
}

// cfg that an attempt asks for, nil if it must be rejected.
func (a *attempt) cfg() *wire.Cfg {
	var c *wire.Cfg
	switch a.Form {
	case "go":
		c = a.Cfg
	case "bytes":
		c, _ = parsed(a.Data, a.Ext)
	case "file":
		if a.Kind != "file" || a.Mode == 0222 {
			return nil
		}
		base := a.Path[strings.LastIndex(a.Path, "/")+1:]
		i := strings.LastIndex(base, ".")
		if i < 0 {
			return nil
		}
		c, _ = parsed(a.Data, base[i+1:])
	}
	if !valid(c) {
		return nil
	}
	return c
}

// yamlText writes a configuration as YAML, in a style that depends on the draws.
func yamlText(t *rapid.T, c *wire.Cfg) []byte {
	if chance(t, 15) {
		return jsonText(t, c) // JSON is YAML
	}
	scalar := func(s string) string {
		bare := s != ""
		for i := 0; i < len(s); i++ {
			if !isAlnum(s[i]) && !(strings.IndexByte("_./", s[i]) >= 0 && i > 0) {
				bare = false
			}
		}
		switch strings.ToLower(s) {
		case "null", "~":
			bare = false
		}
		if bare && chance(t, 60) {
			return s
		}
		if !strings.ContainsAny(s, "\n\t\\") && chance(t, 50) {
			return "'" + strings.Replace(s, "'", "''", -1) + "'"
		}
		b, _ := json.Marshal(s)
		r := strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&")
		return r.Replace(string(b))
	}
	var b strings.Builder
	ind := pick(t, "", "  ", " ")
	if chance(t, 20) {
		b.WriteString("# generated\n")
	}
	attrs := func(m map[string]string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sortStrings(ks)
		ks = subset(t, ks, len(ks), len(ks))
		if len(ks) == 0 {
			b.WriteString(ind + "- {}\n")
			return
		}
		if chance(t, 20) {
			b.WriteString(ind + "- {")
			for i, k := range ks {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(k + ": " + scalar(m[k]))
			}
			b.WriteString("}\n")
			return
		}
		for i, k := range ks {
			if i == 0 {
				b.WriteString(ind + "- ")
			} else {
				b.WriteString(ind + "  ")
			}
			b.WriteString(k + ": " + scalar(m[k]) + "\n")
		}
	}
	sect := []func(){
		func() {
			if len(c.Formats) > 0 {
				b.WriteString("formats:\n")
				for _, m := range c.Formats {
					attrs(m)
				}
			}
		},
		func() {
			if len(c.Outputs) > 0 {
				b.WriteString("outputs:\n")
				for _, m := range c.Outputs {
					attrs(m)
				}
			}
		},
		func() {
			if len(c.Loggers) > 0 {
				b.WriteString("loggers:\n")
				for _, l := range c.Loggers {
					b.WriteString(ind + "- name: " + scalar(l.Name) + "\n")
					if l.Level != "" || chance(t, 30) {
						b.WriteString(ind + "  level: " + scalar(l.Level) + "\n")
					}
					if chance(t, 4) {
						b.WriteString(ind + "  comment: x\n")
					}
					if len(l.Outs) > 0 {
						if chance(t, 50) {
							b.WriteString(ind + "  outputs: [")
							for i, o := range l.Outs {
								if i > 0 {
									b.WriteString(",")
								}
								b.WriteString(scalar(o))
							}
							b.WriteString("]\n")
						} else {
							b.WriteString(ind + "  outputs:\n")
							for _, o := range l.Outs {
								b.WriteString(ind + "  - " + scalar(o) + "\n")
							}
						}
					}
				}
			}
		},
	}
	if chance(t, 8) {
		// what the library does not know
		sect = append(sect, func() {
			b.WriteString(pick(t, "version: 1\n", "x: {a: [1, 2]}\n", "format: []\n", "comment: 'formats'\n"))
		})
	}
	for _, f := range subset(t, sect, len(sect), len(sect)) {
		f()
	}
	return []byte(b.String())
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func jsonText(t *rapid.T, c *wire.Cfg) []byte {
	m := map[string]interface{}{}
	if len(c.Formats) > 0 || chance(t, 50) {
		m["formats"] = c.Formats
	}
	if len(c.Outputs) > 0 || chance(t, 50) {
		m["outputs"] = c.Outputs
	}
	var ls []interface{}
	for _, l := range c.Loggers {
		x := map[string]interface{}{"name": l.Name}
		if l.Level != "" {
			x["level"] = l.Level
		}
		if len(l.Outs) > 0 {
			x["outputs"] = l.Outs
		}
		ls = append(ls, x)
	}
	if len(ls) > 0 {
		m["loggers"] = ls
	}
	if chance(t, 8) {
		m["version"] = map[string]interface{}{"a": 1.5}
	}
	var b []byte
	if chance(t, 50) {
		b, _ = json.Marshal(m)
	} else {
		b, _ = json.MarshalIndent(m, "", pick(t, " ", "   "))
	}
	return b
}

func cloneCfg(c *wire.Cfg) *wire.Cfg {
	b, _ := json.Marshal(c)
	r := &wire.Cfg{}
	json.Unmarshal(b, r)
	return r
}

// spoil makes a configuration invalid (usually).
func spoil(t *rapid.T, c *wire.Cfg) *wire.Cfg {
	c = cloneCfg(c)
	dupMap := func(l []map[string]string) []map[string]string {
		if len(l) == 0 {
			return l
		}
		src := pick(t, l...)
		d := map[string]string{}
		for k, v := range src {
			d[k] = v
		}
		if chance(t, 50) {
			d["x"] = "other"
		}
		i := flat(t, 0, len(l))
		l = append(l[:i:i], append([]map[string]string{d}, l[i:]...)...)
		if chance(t, 20) {
			// two without a name, or with an empty one
			e := map[string]string{}
			for k, v := range d {
				e[k] = v
			}
			for _, m := range []map[string]string{d, e} {
				if delete(m, "name"); chance(t, 50) {
					m["name"] = ""
				}
			}
			i := flat(t, 0, len(l))
			l = append(l[:i:i], append([]map[string]string{e}, l[i:]...)...)
		}
		return l
	}
	switch flat(t, 0, 6) {
	case 0:
		c.Formats = dupMap(c.Formats)
	case 1:
		c.Outputs = dupMap(c.Outputs)
	case 2:
		if len(c.Loggers) > 0 {
			l := pick(t, c.Loggers...)
			if chance(t, 50) {
				l.Level = "off"
			}
			if chance(t, 30) {
				l.Outs = nil
			}
			i := flat(t, 0, len(c.Loggers))
			if chance(t, 15) {
				l.Name = ""
				c.Loggers = append([]wire.CfgLogger{l}, c.Loggers...)
			}
			c.Loggers = append(c.Loggers[:i:i], append([]wire.CfgLogger{l}, c.Loggers[i:]...)...)
		}
	case 3:
		pick(t, c.Outputs...)["format"] = pick(t, "nosuch", "", "F0", "f0 ")
	case 4:
		delete(pick(t, c.Outputs...), "format")
	case 5:
		if len(c.Loggers) > 0 {
			i := flat(t, 0, len(c.Loggers)-1)
			l := &c.Loggers[i]
			k := flat(t, 0, len(l.Outs))
			l.Outs = append(l.Outs[:k:k], append([]string{pick(t, "nosuch", "", "O0")}, l.Outs[k:]...)...)
		}
	case 6:
		c.Formats = c.Formats[:len(c.Formats)-1]
	}
	return c
}

// garble changes bytes of a document.
func garble(t *rapid.T, b []byte) []byte {
	if chance(t, 12) {
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
	}
	b = append([]byte(nil), b...)
	if chance(t, 5) {
		// byte order marks
		return append([]byte(pick(t, "\xef\xbb\xbf", "\xff\xfe", "\xef\xbb", " \xef\xbb\xbf")), b...)
	}
	if chance(t, 15) {
		// something after the end of the document
		switch flat(t, 0, 2) {
		case 0:
			return append(b, pick(t, "}", "]", "{}", "\n}", "x", "\n{", ",", "\x00", "\xff", "\n...\n}", "null", "\n[1]", "\n---\n}", "\"", "//", "\n: :\n")...)
		case 1:
			return append(b, b[flat(t, 0, len(b)):]...)
		}
		return append(append(b, pick(t, "", "\n", " ")...), b...)
	}
	for i := flat(t, 1, 3); i > 0 && len(b) > 0; i-- {
		p := flat(t, 0, len(b)-1)
		switch flat(t, 0, 5) {
		case 0:
			b = b[:p]
		case 1:
			b[p] = byte(flat(t, 0, 255))
		case 2:
			b = append(b[:p:p], b[p+1:]...)
		case 3:
			b = append(b[:p:p], append([]byte(pick(t, ":", "\n", " ", "{", "}", "[", "]", "- ", "\t", "'", "\"", "&a ", "*a", "!!int ", "<<: ", "? ", "|", ">", "%", "\x00", "\xff", "0x", "~", ",")), b[p:]...)...)
		case 4:
			q := flat(t, p, len(b)-1)
			b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 5:
			b[p] = pick(t, byte(' '), byte('\n'), byte(':'), byte('-'), byte('{'))
		}
	}
	return b
}

func genLoad(t *rapid.T) loadCase {
	var k loadCase
	nm := names(t, 1, 4)
	nm = append(nm, "root")
	k.Name = nm
	k.Base = genCfg(t, nm, false)
	k.Eq = chance(t, 35)
	for range nm {
		k.Lvl = append(k.Lvl, flat(t, wire.Trace, wire.Critical))
	}
	if k.Eq {
		c := genCfg(t, nm, false)
		for _, f := range c.Formats {
			if f["type"] == "text" && chance(t, 40) {
				f["layout"] = pick(t, "'%{msg}' \"x\" \\ # y\n", "%{msg}: {a, b} é\t|", "- %{msg}\n- ", "%{time:2006-01-02}%{msg:q}\r\n", "  %{msg}  ")
			}
		}
		for _, o := range c.Outputs {
			if chance(t, 30) {
				o[pick(t, "size", "y", "async")] = pick(t, "0640", "true", "no", "1.0", "null", "~", "", " ", "0x1F", "1e3", "2001-01-01", "[a]", "{}", "#", "a: b")
			}
		}
		k.Try = []attempt{{Form: "go", Cfg: c}}
		for i := flat(t, 2, 4); i > 0; i-- {
			a := attempt{Form: pick(t, "bytes", "file"), Kind: "file"}
			a.Ext = mixCase(t, pick(t, "yaml", "yml", "json"))
			if strings.EqualFold(a.Ext, "json") {
				a.Data = jsonText(t, c)
			} else {
				a.Data = yamlText(t, c)
			}
			a.Path = pick(t, "c.", "conf/log4g.", "conf.d/x.y.") + a.Ext
			k.Try = append(k.Try, a)
		}
		return k
	}
	for i := flat(t, 1, 4); i > 0; i-- {
		c := genCfg(t, nm, true)
		bad := chance(t, 70)
		if bad {
			c = spoil(t, c)
		}
		a := attempt{Form: pick(t, "go", "bytes", "bytes", "file"), Cfg: c, Kind: "file"}
		if a.Form == "go" {
			if chance(t, 10) {
				a.Form, a.Cfg = "nil", nil
			}
			k.Try = append(k.Try, a)
			continue
		}
		a.Cfg = nil
		a.Ext = mixCase(t, pick(t, "yaml", "yml", "json"))
		if strings.EqualFold(a.Ext, "json") {
			a.Data = jsonText(t, c)
		} else {
			a.Data = yamlText(t, c)
		}
		if chance(t, 40) {
			a.Data = garble(t, a.Data)
		}
		if chance(t, 15) {
			a.Ext = pick(t, "", "toml", "xml", "yamlx", "js", "ya", "json5", "txt", "jso", "conf", "jsonyaml", " yaml", "yaml ", ".yaml", ".json", ".", "yaml\n", "yml.", "json;")
		}
		if a.Form == "file" {
			a.Path = pick(t, "c.", "conf/log4g.", "conf.d/x.y.") + a.Ext
			switch flat(t, 0, 11) {
			case 0:
				a.Kind = "missing"
			case 1:
				a.Kind = "dir"
			case 2:
				a.Mode = 0222
			case 3:
				a.Path = pick(t, "c", "conf/log4g", "conf.d/yaml", "x.yaml/json", "conf.json/")
				if strings.HasSuffix(a.Path, "/") {
					a.Kind = "missing"
				}
			}
		}
		k.Try = append(k.Try, a)
	}
	return k
}

// op that makes an attempt.
func (a *attempt) op() wire.Op {
	switch a.Form {
	case "go":
		return wire.Op{K: "setcfg", Cfg: a.Cfg}
	case "nil":
		return wire.Op{K: "setcfg", M: "nil"}
	case "bytes":
		return wire.Op{K: "loadcfg", Data: a.Data, Ext: a.Ext}
	}
	return wire.Op{K: "loadfile", Name: a.Path}
}

// files an attempt needs, below a directory of its own
func (a *attempt) place(i int) (files []wire.File) {
	if a.Form != "file" {
		return nil
	}
	a.Path = fmt.Sprintf("t%d/%s", i, a.Path)
	switch a.Kind {
	case "dir":
		return []wire.File{{Path: a.Path, Dir: true}}
	case "file":
		return []wire.File{{Path: a.Path, Content: a.Data, Mode: a.Mode}}
	}
	return nil
}

func checkLoad(x *X, k *loadCase) error {
	try := append([]attempt(nil), k.Try...)
	if k.Eq {
		return checkEq(x, k, try)
	}
	c := wire.Case{}
	tok := 0
	probe := func() {
		for s := range k.Name {
			m := wire.LevelNames[k.Lvl[s]]
			o := wire.Op{K: "log", L: s, M: m[:1] + strings.ToLower(m[1:]), Args: []wire.Val{{T: "s", S: token(tok)}}}
			tok++
			c.Ops = append(c.Ops, o, wire.Op{K: "query", L: s}, wire.Op{K: "outputs", Name: k.Name[s]})
		}
	}
	for s, nm := range k.Name {
		c.Ops = append(c.Ops, wire.Op{K: "get", L: s, Name: nm})
	}
	c.Ops = append(c.Ops, wire.Op{K: "setcfg", Cfg: k.Base})
	probe()
	at := map[int]*attempt{}
	for i := range try {
		a := &try[i]
		c.Files = append(c.Files, a.place(i)...)
		at[len(c.Ops)] = a
		c.Ops = append(c.Ops, a.op())
		probe()
	}
	r := x.Run("plain", &c)
	if err := r.Crash(); err != nil {
		return err
	}
	// replace the attempts by what they came to, then follow with the model
	d := c
	d.Ops = append([]wire.Op(nil), c.Ops...)
	for i, a := range at {
		res := r.Op[i]
		cfg := a.cfg()
		x.Class("form:%s valid:%v err:%v", a.Form, cfg != nil, res.Err != "")
		if res.Err == "" {
			if cfg == nil {
				return fmt.Errorf("op %d (%s): an invalid configuration was accepted", i, a.Form)
			}
			d.Ops[i] = wire.Op{K: "setcfg", Cfg: cfg}
		} else {
			d.Ops[i] = wire.Op{K: "none"}
			if cfg == nil {
				x.NonTrivial(true)
			}
		}
	}
	ids := map[string][]int{}
	h, err := play(&d, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
		if o.K == "setcfg" {
			ids = map[string][]int{}
		}
		if o.K == "outputs" {
			if old, ok := ids[o.Name]; ok && (res.Err != "" || !reflect.DeepEqual(old, res.IDs)) {
				return fmt.Errorf("op %d: the outputs of %q changed from %v to %v (%s) though no configuration was accepted", i, o.Name, old, res.IDs, res.Err)
			} else if res.Err == "" {
				ids[o.Name] = res.IDs
			}
		}
		for _, e := range res.Evs {
			if a := at[i]; a != nil && o.K == "none" && (e.E == "close" || e.E == "newout" || e.E == "newfmt") {
				return fmt.Errorf("op %d: a rejected configuration had an effect: %+v", i, e)
			}
		}
		return checkQuery(h, i, o, res)
	})
	if err != nil {
		return err
	}
	for _, p := range h.hops {
		if err := p.exact(); err != nil {
			return err
		}
	}
	return nil
}

func checkEq(x *X, k *loadCase, try []attempt) error {
	type seen struct {
		Err  bool
		Refs []string
		B    []string
		Con  int
		Lvl  int
		En   string
		Attr []string
	}
	var ref []seen
	x.NonTrivial(true)
	for v := range try {
		a := &try[v]
		c := wire.Case{Bubble: true, Start: 1.7e9}
		c.Files = a.place(v)
		for s, nm := range k.Name {
			if s%2 == 0 {
				c.Ops = append(c.Ops, wire.Op{K: "get", L: s, Name: nm})
			}
		}
		load := len(c.Ops)
		c.Ops = append(c.Ops, a.op())
		for s, nm := range k.Name {
			m := wire.LevelNames[k.Lvl[s]]
			c.Ops = append(c.Ops, wire.Op{K: "get", L: s, Name: nm},
				wire.Op{K: "log", L: s, M: m[:1] + strings.ToLower(m[1:]), Args: []wire.Val{{T: "s", S: token(s)}}},
				wire.Op{K: "query", L: s})
		}
		x.Class("equivalence: %s %s", a.Form, strings.ToLower(a.Ext))
		r := x.Run("plain", &c)
		if err := r.Crash(); err != nil {
			return err
		}
		var obs []seen
		obs = append(obs, seen{Err: r.Op[load].Err != ""})
		d := c
		d.Ops = append([]wire.Op(nil), c.Ops...)
		if r.Op[load].Err == "" {
			d.Ops[load] = wire.Op{K: "setcfg", Cfg: try[0].Cfg}
		} else {
			d.Ops[load] = wire.Op{K: "none"}
		}
		attr := map[string]bool{}
		h, err := play(&d, r, func(h *history, i int, o *wire.Op, res *wire.Res) error {
			for _, e := range res.Evs {
				if e.E == "newout" || e.E == "newfmt" {
					attr[fmt.Sprint(e.E, e.C, e.Attr)] = true
				}
			}
			if o.K == "query" {
				obs = append(obs, seen{Lvl: res.Lvl, En: res.Enabled})
			}
			return nil
		})
		if err != nil {
			return err
		}
		for _, p := range h.hops {
			s := seen{Refs: p.refs, Con: p.con}
			for _, e := range p.sends {
				s.B = append(s.B, string(e.B))
			}
			obs = append(obs, s)
		}
		var as []string
		for s := range attr {
			as = append(as, s)
		}
		sortStrings(as)
		obs = append(obs, seen{Attr: as})
		if v == 0 {
			ref = obs
			continue
		}
		for i := range ref {
			if !reflect.DeepEqual(ref[i], obs[i]) {
				return fmt.Errorf("the same configuration as a Go value and as %s %s%s: observation %d is %+v and %+v; the document: %q", a.Form, a.Ext, a.Path, i, ref[i], obs[i], a.Data)
			}
		}
	}
	return nil
}

func init() {
	add(Prop{
		ID:   "C05",
		Rule: "valid, spoilt (duplicate or undefined names) and garbled configurations as Go values, YAML, JSON and files of all kinds of names, on top of a valid one: accepted only if an independent reading says valid, otherwise all loggers must act as before; and one configuration in several forms, compared with each other; non-trivial: something invalid was rejected, or forms were compared",
	}, genLoad, checkLoad)
}
