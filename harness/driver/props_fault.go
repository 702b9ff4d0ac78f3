package driver

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// logged is a message (or the content of a file found at the start) in the
// order of the output's stream.
type logged struct {
	text string
	must bool // its logging call returned and nothing went wrong with its own write
	some bool // may be there in part
}

// stored is what an output has on disk: contents of backups and archives in
// the order of their labels, then the current file.
func (o *rollOut) stored(tree Tree) (parts []backup, nBackups int, err error) {
	content := map[string]string{}
	for p, i := range tree {
		if i.Kind != "f" {
			continue
		}
		if l, ok := o.labelOfPath(p); ok {
			nBackups++
			content[l] = string(i.Data)
		}
	}
	for p, i := range tree {
		if o.ext == "" || i.Kind != "f" || !strings.HasSuffix(p, o.ext) {
			continue
		}
		l, ok := o.labelOfPath(strings.TrimSuffix(p, o.ext))
		if !ok {
			continue
		}
		c, err := unpack(o.ext, i.Data)
		if err != nil {
			return nil, 0, fmt.Errorf("archive %s (%d bytes) cannot be read: %v", p, len(i.Data), err)
		}
		if b, ok := content[l]; ok && b != c {
			return nil, 0, fmt.Errorf("archive %s and its backup differ: %q and %q", p, cut(c, 200), cut(b, 200))
		}
		content[l] = c
	}
	for l, c := range content {
		parts = append(parts, backup{l, c})
	}
	o.sort(parts)
	if i, ok := tree[o.curPath()]; ok {
		if i.Kind != "f" {
			return nil, 0, fmt.Errorf("%s is no file", o.curPath())
		}
		parts = append(parts, backup{"", string(i.Data)})
	}
	return
}

// follows tells whether s is the concatenation of the messages, the optional
// ones possibly missing.
func follows(s string, l []logged) (bool, int) {
	best := 0
	var rec func(pos, i int) bool
	rec = func(pos, i int) bool {
		if pos > best {
			best = pos
		}
		for ; i < len(l); i++ {
			m := l[i]
			if m.must {
				if !strings.HasPrefix(s[pos:], m.text) {
					return false
				}
				pos += len(m.text)
				if pos > best {
					best = pos
				}
				continue
			}
			if strings.HasPrefix(s[pos:], m.text) && rec(pos+len(m.text), i+1) {
				return true
			}
			if m.some {
				k := 0
				for k < len(m.text) && pos+k < len(s) && s[pos+k] == m.text[k] {
					k++
				}
				for ; k > 0; k-- {
					if k < len(m.text) && rec(pos+k, i+1) {
						return true
					}
				}
			}
			// missing
		}
		return pos == len(s)
	}
	return rec(0, 0), best
}

// conserved: what is stored is what was logged, minus whole oldest backups if
// retention had a reason to drop them.
func (o *rollOut) conserved(tree Tree, l []logged) error {
	parts, n, err := o.stored(tree)
	if err != nil {
		return err
	}
	var b strings.Builder
	for _, p := range parts {
		b.WriteString(p.content)
	}
	s := b.String()
	ok, best := follows(s, l)
	if ok {
		return nil
	}
	if o.ext == "" && n >= o.max {
		for i := 1; i <= len(l); i++ {
			if ok, k := follows(s, l[i:]); ok {
				return nil
			} else if k > best {
				best = k
			}
		}
	}
	var names []string
	for _, p := range parts {
		names = append(names, fmt.Sprintf("%s(%d)", p.label, len(p.content)))
	}
	var want []string
	for _, m := range l {
		w := strings.TrimSuffix(cut(m.text, 20), "\n")
		if !m.must {
			w = "[" + w + "]"
		}
		want = append(want, w)
	}
	from := best - 60
	if from < 0 {
		from = 0
	}
	return fmt.Errorf("backups, archives and current file %v do not hold the messages %v in order ([optional]); wrong at byte %d of %d: %q | %q", names, cut(strings.Join(want, " "), 1500), best, len(s), s[from:best], cut(s[best:], 150))
}

// killCase is a life over several processes, some of which are killed.
type killCase struct {
	rollCase
	Kills []int // per process: killed before this file-system operation, 0: never
	Enum  int   // process whose kill points are all tried, + 1
}

// initial contents of the stream of an output
func initial(o *rollOut, tree Tree) (l []logged) {
	o.found(tree)
	for _, b := range o.all {
		l = append(l, logged{b.content, true, false})
	}
	if o.cur != "" {
		l = append(l, logged{o.cur, true, false})
	}
	return
}

// unchanged compares what exists with what existed before the process: nothing
// older is modified, numbers only grow.
func (o *rollOut) unchanged(was, is Tree) error {
	max := int64(-1 << 62)
	olds := map[string]bool{}
	for p, i := range was {
		if i.Kind != "f" {
			continue
		}
		l, ok := o.labelOfPath(p)
		isArch := false
		if !ok && o.ext != "" && strings.HasSuffix(p, o.ext) {
			l, ok = o.labelOfPath(strings.TrimSuffix(p, o.ext))
			isArch = ok
		}
		if !ok {
			continue
		}
		olds[l] = true
		if k := o.key(l); k > max {
			max = k
		}
		n, still := is[p]
		if isArch {
			if !still {
				return fmt.Errorf("archive %s is gone", p)
			}
			a, _ := unpack(o.ext, i.Data)
			b, err := unpack(o.ext, n.Data)
			if err != nil || a != b {
				return fmt.Errorf("archive %s was changed: %q, then %q %v", p, cut(a, 100), cut(b, 100), err)
			}
		} else if still && string(n.Data) != string(i.Data) {
			return fmt.Errorf("backup %s was changed: %q, then %q", p, cut(string(i.Data), 100), cut(string(n.Data), 100))
		}
	}
	if !o.timed {
		for p := range is {
			if l, ok := o.labelOfPath(p); ok && !olds[l] && o.key(l) <= max {
				return fmt.Errorf("new backup %s, though there was number %d", p, max)
			}
		}
	}
	return nil
}

// life runs the processes of the case. It returns the number of file-system
// operations of process want and whether a kill came in it.
func (x *X) life(k *killCase, kills []int, want int) (ops int, killed int, err error) {
	dir := x.NewDir()
	Put(dir, k.Files, false)
	var outs []*rollOut
	var streams [][]logged
	tree := ReadTree(dir)
	for _, d := range k.Outs {
		o := newRollOut(d, k.loc())
		outs = append(outs, o)
		streams = append(streams, initial(o, tree))
	}
	for s := range k.Sess {
		c := k.session(s)
		for i, d := range k.outputs(s) {
			max := outs[i].max
			if outs[i].set(d); max < outs[i].max {
				outs[i].max = max // has had reasons to drop more
			}
		}
		c.Files = nil
		c.Snap = ""
		c.Fault = &wire.Fault{Kill: kills[s]}
		r := x.RunIn("fault", c, dir)
		if r.Sig == syscall.SIGKILL && !r.Done {
			killed++
		} else if err := r.Crash(); err != nil {
			return 0, 0, fmt.Errorf("process %d: %w", s, err)
		}
		if s == want && r.Last != nil {
			ops = r.Last.FSOps
		}
		for i := range c.Ops {
			o := &c.Ops[i]
			if o.K == "setcfg" && r.Op[i] != nil && r.Op[i].Err != "" {
				return 0, 0, fmt.Errorf("process %d: the configuration is refused: %s", s, r.Op[i].Err)
			}
			if o.K != "log" {
				continue
			}
			if r.Op[i] == nil {
				streams[o.L] = append(streams[o.L], logged{o.Msg.Text(), false, true})
				break
			}
			streams[o.L] = append(streams[o.L], logged{o.Msg.Text(), true, false})
		}
		after := ReadTree(dir)
		for i, o := range outs {
			what := fmt.Sprintf("process %d of %d, killed before file operations %v, output %v", s, len(k.Sess), kills, o.d)
			if err := o.unchanged(tree, after); err != nil {
				return 0, 0, fmt.Errorf("%s: %w", what, err)
			}
			if err := o.conserved(after, streams[i]); err != nil {
				return 0, 0, fmt.Errorf("%s: %w", what, err)
			}
		}
		tree = after
	}
	return
}

// noteLabels: the next backup of a time rolling output must not be dated before existing ones.
func genKill(t *rapid.T, enum bool) killCase {
	g := rollGen{types: []string{"size_rolling_file", "time_rolling_file"}, archive: []string{"", "", "zip", "gzip"}, outs: 2, backups: func() int { return pick(t, 1, 1, 2, 2, 3, 5) }, msgs: [2]int{1, 14}, sess: [2]int{2, 4}, prior: true, vary: 20}
	if enum {
		g.outs, g.msgs, g.sess = 1, [2]int{2, 8}, [2]int{2, 3}
	}
	k := killCase{rollCase: genRoll(t, g)}
	k.small()
	for i := range k.Sess {
		k.Sess[i].Again = false
		n := 0
		if chance(t, 70) {
			n = flat(t, 1, 60)
		}
		k.Kills = append(k.Kills, n)
	}
	if enum {
		k.Enum = flat(t, 1, len(k.Sess))
	}
	return k
}

// small keeps messages short and lets size rolling roll often.
func (k *rollCase) small() {
	for i := range k.Sess {
		for j := range k.Sess[i].Ops {
			if m := k.Sess[i].Ops[j].Msg; m != nil && m.Len > 2000 {
				m.Len = 2000
			}
		}
	}
	for _, d := range k.Outs {
		if _, ok := d["size"]; ok && len(d["size"]) > 2 {
			d["size"] = d["size"][:2]
		}
	}
}

// faultCase is a life of one process with faults.
type faultCase struct {
	rollCase
	F    wire.Fault
	Enum bool // each operation fails on its own once, F says how
}

var errnos = []int{int(syscall.EIO), int(syscall.ENOSPC), int(syscall.EACCES), int(syscall.EMFILE), int(syscall.EROFS), int(syscall.EDQUOT), int(syscall.EPERM)}

func genFault(t *rapid.T) faultCase {
	g := rollGen{types: []string{"size_rolling_file", "time_rolling_file"}, archive: []string{"", "", "zip", "gzip"}, outs: 1, backups: func() int { return pick(t, 1, 1, 2, 2, 3, 5) }, msgs: [2]int{3, 16}, sess: [2]int{1, 1}, prior: true}
	if chance(t, 20) {
		// clocks going back: enough backups, so that none is dropped
		g.types, g.dst, g.backups, g.prior = []string{"time_rolling_file"}, 100, func() int { return 20 }, false
	}
	k := faultCase{rollCase: genRoll(t, g)}
	k.small()
	f := &k.F
	f.Errno = pick(t, errnos...)
	f.Short = chance(t, 50)
	k.Enum = chance(t, 25)
	if !k.Enum {
		f.Kinds = pick(t, "", "", "", "create", "open", "write", "close", "rename", "readdir", "chmod", "remove", "mkdir", "stat", "create,write", "rename,remove", "open,readdir", "mkdir,create")
		if f.Kinds != "" && !strings.Contains(f.Kinds, "stat") && chance(t, 20) {
			f.Errno = int(syscall.ENOENT)
		}
		hi := 100
		if f.Kinds != "" {
			hi = 25
		}
		f.From = flat(t, 1, hi)
		f.To = f.From + pick(t, 1, 1, 1, 2, 3, 5, 10, 30, 1000)
	}
	return k
}

// ownWrite tells whether a fault hit the writing of the message itself:
// finding or opening the current file, or writing to it.
func (o *rollOut) ownWrite(fired []string) bool {
	for _, f := range fired {
		kind, p, _ := strings.Cut(f, " ")
		p = filepath.Clean(p)
		switch kind {
		case "create", "open", "write", "stat":
			if p == o.curPath() {
				return true
			}
		}
		if kind == "mkdir" || kind == "stat" {
			for d := o.dir; ; d = filepath.Dir(d) {
				if p == d {
					return true
				}
				if d == "." || d == "/" {
					break
				}
			}
		}
	}
	return false
}

// announced tells whether the failure of an operation has to be reported: a
// backup cannot be made, archived or removed.
func (o *rollOut) announced(fired string, errno int) bool {
	kind, p, _ := strings.Cut(fired, " ")
	p = filepath.Clean(p)
	if errno == int(syscall.ENOENT) {
		return false
	}
	switch kind {
	case "rename":
		return true
	case "remove":
		_, backup := o.labelOfPath(p)
		return backup
	case "create", "write":
		return strings.Contains(p, "/.log4g_tmp/")
	}
	return false
}

func (x *X) faulty(k *faultCase, f wire.Fault) (ops int, fired int, err error) {
	dir := x.NewDir()
	Put(dir, k.Files, false)
	o := newRollOut(k.Outs[0], k.loc())
	was := ReadTree(dir)
	stream := initial(o, was)
	c := k.session(0)
	c.Files = nil
	c.Fault = &f
	r := x.RunIn("fault", c, dir)
	if err := r.Crash(); err != nil {
		return 0, 0, err
	}
	ops = r.Last.FSOps
	what := fmt.Sprintf("operations %d to %d (%s) fail with %q, short %v, output %v", f.From, f.To-1, f.Kinds, syscall.Errno(f.Errno).Error(), f.Short, o.d)
	fail := func(i int, format string, a ...interface{}) error {
		return fmt.Errorf("%s: op %d: %s", what, i, fmt.Sprintf(format, a...))
	}
	var before seen
	label := "" // period of the previous message
	clean := 0  // messages since the last fault
	sure := false
	settled := true // no roll can be pending
	for i := range c.Ops {
		op, res := &c.Ops[i], r.Op[i]
		if op.K == "setcfg" && res.Err != "" {
			return 0, 0, fail(i, "the configuration is refused: %s", res.Err)
		}
		after := seenOf(res.Files)
		switch op.K {
		case "ls":
			before = after
		case "sleep":
			before = after
		case "log":
			fired += len(res.Fired)
			for _, fi := range res.Fired {
				if o.announced(fi, f.Errno) {
					x.Class("failure reported")
					if !strings.Contains(r.Err, syscall.Errno(f.Errno).Error()) {
						return 0, 0, fail(i, "%s failed, and standard error does not say so: %q", fi, cut(r.Err, 300))
					}
				}
			}
			text := op.Msg.Text()
			own := o.ownWrite(res.Fired)
			stream = append(stream, logged{text, !own, own})
			if len(res.Fired) > 0 {
				x.Class("fault:%s", strings.Fields(res.Fired[0])[0])
				clean, settled = 0, false
			}
			period := ""
			if o.timed {
				period = time.Unix(0, res.Now).In(o.loc).Format(o.pattern)
			}
			// once a message went through without fault, rolling must work as always
			if clean > 0 {
				roll := before[o.curPath()].Size >= o.size
				next := ""
				if o.timed {
					roll = label != period
					next = label
					if _, ok := before[o.path(label)]; ok {
						roll = false
					}
					if _, ok := before[o.arch(label)]; ok {
						roll = false
					}
				} else {
					m := int64(0)
					for p := range before {
						p = strings.TrimSuffix(p, o.ext)
						if l, ok := o.labelOfPath(p); ok && o.key(l) > m {
							m = o.key(l)
						}
					}
					next = fmt.Sprint(m + 1)
				}
				size := before[o.curPath()].Size
				if o.timed && !settled {
					// a roll that failed may have been left out or may come late,
					// under its old name; but a new period makes a roll
					if late := after[o.curPath()].Size == int64(len(text)) && size > 0; late || k.recurs() {
						settled = late
						roll = false
						if late {
							size = 0
						}
					}
				}
				if roll {
					size = 0
				}
				if after[o.curPath()].Size != size+int64(len(text)) {
					return 0, 0, fail(i, "%s had %d bytes, has %d after a message of %d; roll expected: %v", o.curPath(), before[o.curPath()].Size, after[o.curPath()].Size, len(text), roll)
				}
				if roll {
					b, a := before[o.curPath()], after[o.path(next)]
					if a.Size != b.Size || a.Sum != b.Sum {
						return 0, 0, fail(i, "after a roll %s is %+v, %s was %+v", o.path(next), a, o.curPath(), b)
					}
					if n := len(o.backups(after)); n > o.max {
						return 0, 0, fail(i, "%d backups after a roll, not %d", n, o.max)
					}
					settled = true
					if fired > 0 {
						sure = true
					}
				}
			}
			if !own {
				// it must be the end of the current file
				if a := after[o.curPath()]; a.Size < int64(len(text)) || a.Kind != "f" {
					return 0, 0, fail(i, "the message is missing, though its own writing did not fail (%v): %s has %d bytes", res.Fired, o.curPath(), a.Size)
				}
			}
			if len(res.Fired) == 0 {
				clean++
			}
			label = period
			before = after
		}
	}
	tree := ReadTree(dir)
	if err := o.unchanged(was, tree); err != nil {
		return 0, 0, fail(len(c.Ops), "%v", err)
	}
	if k.recurs() {
		// labels are not in the order of time
		err = o.conservedUnordered(tree, stream)
	} else {
		err = o.conserved(tree, stream)
	}
	if err != nil {
		return 0, 0, fail(len(c.Ops), "%v", err)
	}
	if sure {
		x.Class("rolled after a fault")
	}
	return
}

func (k *rollCase) recurs() bool {
	for _, z := range dstZones {
		if z.tz == k.TZ {
			return true
		}
	}
	return false
}

// conservedUnordered: every message is in one of the files, once.
func (o *rollOut) conservedUnordered(tree Tree, l []logged) error {
	parts, _, err := o.stored(tree)
	if err != nil {
		return err
	}
	var b strings.Builder
	for _, p := range parts {
		b.WriteString(p.content)
	}
	s := b.String()
	for _, m := range l {
		if n := strings.Count(s, m.text); m.must && n != 1 || n > 1 {
			return fmt.Errorf("message %q is stored %d times", cut(m.text, 80), n)
		}
	}
	return nil
}

func init() {
	add(Prop{
		ID:    "C17",
		Kinds: "fault",
		Rule:  "lives over two to four processes logging to one or two synchronous rolling outputs (both types, both name modes, with and without archive, files left by earlier processes), processes killed by SIGKILL before a generated file-system operation; in a part of the cases every operation of one of the processes is tried as the kill point; after each process every message whose call returned must be in archives, backups and current file, complete, once, in order, older files unchanged, numbers growing; non-trivial: a process was killed",
	}, func(t *rapid.T) killCase {
		return genKill(t, chance(t, 25))
	}, func(x *X, k *killCase) error {
		x.Class("archive:%s type:%s", k.Outs[0]["archive"], k.Outs[0]["type"])
		if k.Enum == 0 {
			_, killed, err := x.life(k, k.Kills, 0)
			x.NonTrivial(killed > 0)
			x.Class("killed:%d", killed)
			return err
		}
		kills := append([]int(nil), k.Kills...)
		kills[k.Enum-1] = 0
		n, _, err := x.life(k, kills, k.Enum-1)
		x.Class("all kill points")
		if n > 150 {
			n = 150
		}
		for i := 1; i <= n && err == nil; i++ {
			kills[k.Enum-1] = i
			var killed int
			_, killed, err = x.life(k, kills, k.Enum-1)
			x.NonTrivial(killed > 0)
			x.clean()
		}
		return err
	})

	add(Prop{
		ID:    "C18",
		Kinds: "fault",
		Rule:  "messages to a synchronous rolling output (both types, with and without archive, clocks going back included) while a generated range of its file-system operations, of all or some kinds, fails with a generated error (writes possibly after half of the data); in a part of the cases each operation fails in turn; no panic or hang, only messages whose own write failed may be missing or partial, everything else is stored once and in order, and from the second message after the faults rolling and retention are those of the reference; non-trivial: a fault fired",
	}, genFault, func(x *X, k *faultCase) error {
		x.Class("archive:%s type:%s", k.Outs[0]["archive"], k.Outs[0]["type"])
		if !k.Enum {
			_, fired, err := x.faulty(k, k.F)
			x.NonTrivial(fired > 0)
			x.Class("fired:%s", bucket(fired))
			return err
		}
		x.Class("every operation in turn")
		n, _, err := x.faulty(k, wire.Fault{})
		if n > 120 {
			n = 120
		}
		for i := 1; i <= n && err == nil; i++ {
			f := k.F
			f.From, f.To = i, i+1
			var fired int
			_, fired, err = x.faulty(k, f)
			x.NonTrivial(fired > 0)
			x.clean()
		}
		return err
	}, func() (l []faultCase) {
		// a period recurs and the look for its backup fails
		k := faultCase{Enum: true, F: wire.Fault{Kinds: "stat", Errno: int(syscall.EIO)}}
		k.TZ = "Europe/Berlin"
		k.Outs = []map[string]string{{"name": "o0", "type": "time_rolling_file", "format": "f0", "file": "log/app.log", "backups": "20", "pattern": "2006-01-02T15-04"}}
		s := rollSess{Start: 1635642000 - 50*60}
		for i, m := range []int{0, 10, 50, 10, 10, 60} {
			s.Ops = append(s.Ops, wire.Op{K: "sleep", D: int64(m) * int64(time.Minute)}, wire.Op{K: "log", M: "Info", Msg: &wire.Msg{I: i}})
		}
		k.Sess = []rollSess{s}
		return []faultCase{k}
	})
}
