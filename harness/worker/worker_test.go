// Package worker is the process that executes one case against log4g, using
// nothing but its public API.
package worker

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	_ "time/tzdata"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verif/wire"
	"github.com/xtfly/log4g/verif/worker/sites"
)

var (
	cs      wire.Case
	order   int64
	emitMu  sync.Mutex
	evMu    sync.Mutex
	evs     []wire.Ev
	stateMu sync.Mutex // the tables below
	loggers = map[int]api.Logger{}
	writers = map[int]api.Writer{}
	lids    = map[api.Logger]int{}
	outIDs  = map[api.Output]int{}
	outObjs []api.Output
	newouts = map[int]int{}
	named   = map[string]api.Output{}
	fmtIDs  = map[api.Formatter]int{}
	slog    *syslogd
)

func emit(r *wire.Res) {
	b, err := json.Marshal(r)
	if err != nil {
		b, _ = json.Marshal(wire.Res{Op: r.Op, Panic: "harness: " + err.Error()})
	}
	b = append(b, '\n')
	emitMu.Lock()
	defer emitMu.Unlock()
	for len(b) > 0 {
		n, err := syscall.Write(3, b)
		if err == syscall.EINTR || err == syscall.EAGAIN {
			continue
		}
		if err != nil {
			return
		}
		b = b[n:]
	}
}

func event(e wire.Ev) {
	if cs.Live {
		emit(&wire.Res{Op: -2, Evs: []wire.Ev{e}})
		liveMu.Lock()
		switch e.E {
		case "newout":
			unclosed[e.ID] = true
		case "close":
			delete(unclosed, e.ID)
		}
		liveMu.Unlock()
	}
	evMu.Lock()
	evs = append(evs, e)
	evMu.Unlock()
}

// what a signal has to flush (Live only)
var (
	liveMu   sync.Mutex
	unclosed = map[int]bool{}
	logged   []struct {
		b    int64
		o    *wire.Op
	}
	sigAt int64
)

func fileText(name string) string {
	if name == "-" {
		b := make([]byte, stdoutSize())
		n, _ := syscall.Pread(1, b, 0)
		if n < 0 {
			n = 0
		}
		return string(b[:n])
	}
	b, _ := os.ReadFile(name)
	return string(b)
}

// unflushed tells what is missing of what was there before the signal.
func unflushed() string {
	liveMu.Lock()
	defer liveMu.Unlock()
	if len(unclosed) > 0 {
		return fmt.Sprintf("%d outputs are not closed", len(unclosed))
	}
	texts := map[string]string{}
	for _, l := range logged {
		if sigAt != 0 && l.b > sigAt {
			continue
		}
		for _, f := range l.o.Outs {
			t, ok := texts[f]
			if !ok {
				t = fileText(f)
				texts[f] = t
			}
			if !strings.Contains(t, l.o.Msg.Text()) {
				return fmt.Sprintf("message %v is not in %s", *l.o.Msg, f)
			}
		}
	}
	return ""
}

func drain() []wire.Ev {
	evMu.Lock()
	defer evMu.Unlock()
	r := evs
	evs = nil
	return r
}

func outID(o api.Output) int {
	stateMu.Lock()
	defer stateMu.Unlock()
	id, ok := outIDs[o]
	if !ok {
		id = len(outObjs)
		outIDs[o] = id
		outObjs = append(outObjs, o)
	}
	return id
}

func fmtID(f api.Formatter) int {
	stateMu.Lock()
	defer stateMu.Unlock()
	id, ok := fmtIDs[f]
	if !ok {
		id = len(fmtIDs) + 1
		fmtIDs[f] = id
	}
	return id
}

func loggerID(l api.Logger) int {
	stateMu.Lock()
	defer stateMu.Unlock()
	id, ok := lids[l]
	if !ok {
		id = len(lids) + 1
		lids[l] = id
	}
	return id
}

// capOutput records what it is given.
type capOutput struct {
	id   int
	name string
	mu   sync.Mutex
	f    api.Formatter
	arm  func()
}

// kept events, if the case wants them kept
var kept []struct {
	e  *api.Event
	ev wire.Ev
}

// changed are the kept events that are no longer what they were.
func changed() (r []wire.Ev) {
	evMu.Lock()
	defer evMu.Unlock()
	for _, k := range kept {
		e := k.e
		now := wire.Ev{E: "changed", Name: k.ev.Name, ID: k.ev.ID, Log: e.Name, Lvl: int(e.Level), Msg: []byte(e.Message()), T: e.Time.UnixNano()}
		if now.Log != k.ev.Log || now.Lvl != k.ev.Lvl || now.T != k.ev.T || string(now.Msg) != string(k.ev.Msg) {
			now.B = []byte(fmt.Sprintf("%q, level %d, logger %q, time %d", k.ev.Msg, k.ev.Lvl, k.ev.Log, k.ev.T))
			r = append(r, now)
		}
	}
	return r
}

// armed are the calls that capturing outputs made.
var armed []chan struct{}

// act calls f in a goroutine of its own and gives it the time to finish.
func act(f func()) {
	c := make(chan struct{})
	var done int32
	go func() {
		f()
		atomic.StoreInt32(&done, 1)
		close(c)
	}()
	for i := 0; i < 3000 && atomic.LoadInt32(&done) == 0; i++ {
		runtime.Gosched()
	}
	stateMu.Lock()
	armed = append(armed, c)
	stateMu.Unlock()
}

// settle waits for the calls that outputs made.
func settle() {
	stateMu.Lock()
	l := armed
	armed = nil
	stateMu.Unlock()
	for _, c := range l {
		<-c
	}
}

func (o *capOutput) Send(e *api.Event) {
	ev := wire.Ev{E: "send", Name: o.name, ID: o.id, Log: e.Name, Lvl: int(e.Level), Msg: []byte(e.Message()), T: e.Time.UnixNano()}
	o.mu.Lock()
	f, arm := o.f, o.arm
	o.arm = nil
	o.mu.Unlock()
	if f != nil {
		ev.F = fmtID(f)
		ev.B = f.Format(e)
	}
	if cs.Keep {
		evMu.Lock()
		kept = append(kept, struct {
			e  *api.Event
			ev wire.Ev
		}{e, ev})
		evMu.Unlock()
	}
	event(ev)
	if arm != nil {
		act(arm)
	}
}

func (o *capOutput) SetFormatter(f api.Formatter) {
	o.mu.Lock()
	o.f = f
	o.mu.Unlock()
	event(wire.Ev{E: "setfmt", Name: o.name, ID: o.id, F: fmtID(f)})
}

func (o *capOutput) CallerInfoFlag() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.f == nil {
		return 0
	}
	return o.f.CallerInfoFlag()
}

func (o *capOutput) Close() { event(wire.Ev{E: "close", Name: o.name, ID: o.id}) }

func newCap(name string) *capOutput {
	o := &capOutput{name: name}
	o.id = outID(o)
	return o
}

type ctxKey string

// reuse is what an application may do with a slice of its own.
func reuse(outs []api.Output) {
	for i := range outs {
		outs[i] = &capOutput{id: -1, name: "reused slice"}
	}
}

func reuseConfig(c *api.Config) {
	for _, f := range c.Formats {
		for k := range f {
			f[k] = "changed " + f[k]
		}
	}
	for _, o := range c.Outputs {
		for k := range o {
			o[k] = "changed " + o[k]
		}
	}
	for i := range c.Loggers {
		l := &c.Loggers[i]
		l.Name, l.Level = "changed"+l.Name, "critical"
		for k := range l.OutputNames {
			l.OutputNames[k] = "changed"
		}
	}
}

type capFormatter struct{ tag, name string }

func (f *capFormatter) Format(e *api.Event) []byte {
	return []byte("<" + f.tag + ":" + f.name + ":" + e.Message() + ">")
}

func (f *capFormatter) CallerInfoFlag() int { return 0 }

func attrs(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// register a creator: what is out, outerr, fmt or fmterr.
func register(what, typ, tag string) {
	m := log4g.GetManager()
	switch what {
	case "out":
		m.RegisterOutputCreator(typ, func(cfg api.CfgOutput) (api.Output, error) {
			o := newCap(cfg.Name())
			event(wire.Ev{E: "newout", Name: cfg.Name(), ID: o.id, C: tag, Attr: attrs(cfg)})
			return o, nil
		})
	case "outerr":
		m.RegisterOutputCreator(typ, func(cfg api.CfgOutput) (api.Output, error) {
			event(wire.Ev{E: "outerr", Name: cfg.Name(), C: tag})
			return nil, errors.New("no such output")
		})
	case "fmt":
		m.RegisterFormatterCreator(typ, func(cfg api.CfgFormat) (api.Formatter, error) {
			f := &capFormatter{tag, cfg.Name()}
			event(wire.Ev{E: "newfmt", Name: cfg.Name(), F: fmtID(f), C: tag, Attr: attrs(cfg)})
			return f, nil
		})
	case "fmterr":
		m.RegisterFormatterCreator(typ, func(cfg api.CfgFormat) (api.Formatter, error) {
			event(wire.Ev{E: "fmterr", Name: cfg.Name(), C: tag})
			return nil, errors.New("no such format")
		})
	default:
		panic("harness: register " + what)
	}
}

func config(c *wire.Cfg) *api.Config {
	if c == nil {
		return &api.Config{}
	}
	r := &api.Config{}
	for _, f := range c.Formats {
		r.Formats = append(r.Formats, api.CfgFormat(attrs(f)))
	}
	for _, o := range c.Outputs {
		r.Outputs = append(r.Outputs, api.CfgOutput(attrs(o)))
	}
	for _, l := range c.Loggers {
		r.Loggers = append(r.Loggers, api.CfgLogger{Name: l.Name, Level: l.Level, OutputNames: append([]string(nil), l.Outs...)})
	}
	return r
}

// direct logs from a plain function.
//
//go:noinline
func direct(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}) {
	switch m {
	case "Trace":
		where(1); w.Trace(a...)
	case "Tracef":
		where(1); w.Tracef(f, a...)
	case "Debug":
		where(1); w.Debug(a...)
	case "Debugf":
		where(1); w.Debugf(f, a...)
	case "Info":
		where(1); w.Info(a...)
	case "Infof":
		where(1); w.Infof(f, a...)
	case "Warn":
		where(1); w.Warn(a...)
	case "Warnf":
		where(1); w.Warnf(f, a...)
	case "Error":
		where(1); w.Error(a...)
	case "Errorf":
		where(1); w.Errorf(f, a...)
	case "Critical":
		where(1); w.Critical(a...)
	case "Criticalf":
		where(1); w.Criticalf(f, a...)
	case "Printf":
		where(1); w.Printf(lvl, f, a...)
	default:
		panic("harness: method " + m)
	}
	nop()
}

//go:noinline
func nop() {}

type chain struct{ n int }

//go:noinline
func (c chain) down(n int, f func()) {
	if n <= 0 {
		f()
	} else {
		chainB(n-1, f)
	}
	nop()
}

//go:noinline
func chainB(n int, f func()) {
	if n <= 0 {
		f()
	} else {
		chain{}.down(n-1, f)
	}
	nop()
}

func logOp(o *wire.Op, r *wire.Res) {
	stateMu.Lock()
	l := loggers[o.L]
	var w api.Writer = l
	if o.W > 0 {
		w = writers[o.W-1]
	}
	stateMu.Unlock()
	if w == nil || l == nil {
		panic("harness: no such logger or writer")
	}
	f, a := o.Fmt, wire.Values(o.Args)
	if o.Msg != nil {
		text := o.Msg.Text()
		if strings.HasSuffix(o.M, "f") {
			f = text
		} else {
			a = []interface{}{text}
		}
	}
	lvl := api.Level(o.Lvl)
	where := func(int) {}
	if o.Trace {
		where = func(n int) {
			pcs := make([]uintptr, 200)
			fr := runtime.CallersFrames(pcs[:runtime.Callers(1+n, pcs)])
			for {
				f, more := fr.Next()
				if f.Function != "" {
					r.Frames = append(r.Frames, wire.Loc{File: f.File, Line: f.Line, Func: f.Function})
				}
				if !more {
					break
				}
			}
		}
	}
	run := func() {
		switch {
		case o.Site == 1:
			(&sites.T{}).P(where, w, o.M, lvl, f, a)
		case o.Site == 2 && o.W == 0:
			sites.L(where, l, o.M, lvl, f, a)
		case o.Site == 3:
			defer direct(where, w, o.M, lvl, f, a)
			nop()
		case o.Site == 4:
			(&sites.T{}).C(where, w, o.M, lvl, f, a)
		case o.Site == 5:
			sites.N(where, w, o.M, lvl, f, a)
		case o.Site == 6:
			sites.G(where, w, o.M, lvl, f, a, "")
		case o.Site == 7:
			sites.GT[int]{}.M(where, w, o.M, lvl, f, a)
		case o.Site == 8:
			var c sites.Caller = sites.Outer{D: &sites.D{}}
			c.P(where, w, o.M, lvl, f, a)
		case o.Site == 9:
			sites.I(where, w, o.M, lvl, f, a)
		case o.Site == 10, o.Site == 11:
			sites.S(where, w, o.M, lvl, f, a, o.Site == 11)
		default:
			direct(where, w, o.M, lvl, f, a)
		}
	}
	if o.Depth > 0 {
		chain{}.down(o.Depth, run)
	} else {
		run()
	}
	// the application goes on using its variables
	for i := range o.Args {
		if i < len(a) && !cs.Keep {
			defer func() { a[i] = "changed" }()
		}
		switch o.Args[i].T {
		case "mby":
			b := a[i].([]byte)
			for k := range b {
				b[k] = '?'
			}
		case "mpair":
			*a[i].(*wire.Pair) = wire.Pair{A: -1, B: "changed"}
		case "mmap":
			a[i].(map[string]int)["changed"] = -1
		}
	}
}

func list(dir string, data, crc bool) (r []wire.Info) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		i := wire.Info{Path: p, Size: fi.Size(), Mode: int(fi.Mode().Perm()), Kind: "f"}
		switch {
		case fi.IsDir():
			i.Kind = "d"
			i.Size = 0
		case fi.Mode()&os.ModeSymlink != 0:
			i.Kind = "l"
		case data && fi.Size() < 1<<24:
			i.Data, _ = os.ReadFile(p)
		case crc && fi.Size() < 1<<24:
			if b, err := os.ReadFile(p); err == nil {
				i.Sum = crc32.ChecksumIEEE(b)
			}
		}
		r = append(r, i)
		return nil
	})
	sort.Slice(r, func(i, j int) bool { return r[i].Path < r[j].Path })
	return
}

func stdoutSize() int64 {
	var st syscall.Stat_t
	if syscall.Fstat(1, &st) != nil {
		return 0
	}
	return st.Size
}

// hook is called while the library formats a message.
func hook(kind int, name string) {
	switch l := log4g.GetLogger(name); kind {
	case 0:
		l.Level()
	case 1:
		l.InfoEnabled()
	case 2:
		log4g.GetManager().GetLoggerOutputs(name)
	case 3:
		l.SetCallerSkip(0)
	case 4:
		l.Errorf("nested %d", atomic.AddInt64(&order, 1))
	case 5:
		l.WithFields(api.Field{Key: "k", Value: 1}).Info("nested ", atomic.AddInt64(&order, 1))
	}
}

var (
	probeMu sync.Mutex
	probes  [][2]int
)

func probed(id int64) {
	n := int(atomic.AddInt64(&order, 1))
	probeMu.Lock()
	probes = append(probes, [2]int{int(id), n})
	probeMu.Unlock()
}

var acted sync.Map

// actOnce does what an operand does, once.
func actOnce(k int) {
	if _, done := acted.LoadOrStore(k, true); done {
		return
	}
	for i := range cs.Acts[k] {
		o := &cs.Acts[k][i]
		sub := wire.Res{Op: -5, Thr: 1000 + k, Sub: i, A: int(atomic.AddInt64(&order, 1))}
		sub.Now = time.Now().UnixNano()
		doOp(o, &sub)
		sub.B = int(atomic.AddInt64(&order, 1))
		emit(&sub)
	}
}

func doOp(o *wire.Op, r *wire.Res) {
	m := log4g.GetManager()
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r.Panic = fmt.Sprintf("%v\n%s", p, buf)
		}
	}()
	errOf := func(err error) {
		if err != nil {
			r.Err = "error: " + err.Error()
		}
	}
	logger := func() api.Logger {
		stateMu.Lock()
		defer stateMu.Unlock()
		l := loggers[o.L]
		if l == nil {
			panic("harness: no such logger")
		}
		return l
	}
	switch o.K {
	case "get":
		l := log4g.GetLogger(o.Name)
		r.ID = loggerID(l)
		stateMu.Lock()
		loggers[o.L] = l
		stateMu.Unlock()
	case "getmany":
		for i := 0; i < o.N; i++ {
			log4g.GetLogger(fmt.Sprintf("%s%d", o.Name, i))
		}
	case "log":
		logOp(o, r)
		settle()
		if cs.Live {
			b := atomic.AddInt64(&order, 1)
			liveMu.Lock()
			logged = append(logged, struct {
				b int64
				o *wire.Op
			}{b, o})
			liveMu.Unlock()
		}
	case "mkwriter":
		l := logger()
		var w api.Writer
		if o.M == "nil" {
			w = l.WithCtx(nil)
		} else if o.M == "ctx" || o.M == "cancel" {
			ctx, cancel := context.WithCancel(context.Background())
			if o.M == "cancel" {
				cancel()
			} else {
				ctx = context.Background()
				cancel()
			}
			for _, f := range o.Fields {
				ctx = context.WithValue(ctx, f.Key, f.Val.Go())
				// another package's key
				ctx = context.WithValue(ctx, ctxKey(f.Key), "not for logs")
			}
			if o.N != 0 {
				ctx = wire.ProbeCtx{Context: ctx, ID: int64(o.N)}
			}
			w = l.WithCtx(ctx)
		} else {
			var fs []api.Field
			for _, f := range o.Fields {
				fs = append(fs, api.Field{Key: f.Key, Value: f.Val.Go()})
			}
			w = l.WithFields(fs...)
			// the application goes on using its variables
			for i := range fs {
				fs[i].Value = "changed"
			}
		}
		stateMu.Lock()
		writers[o.W-1] = w
		stateMu.Unlock()
	case "setlevel":
		logger().SetLevel(api.Level(o.Lvl))
	case "skip":
		logger().SetCallerSkip(o.N)
	case "probes":
		probeMu.Lock()
		r.Probes = append(r.Probes, probes...)
		probeMu.Unlock()
	case "newout":
		id := newCap(o.Name).id
		r.IDs = []int{id}
		stateMu.Lock()
		newouts[o.N] = id
		stateMu.Unlock()
	case "setouts":
		var outs []api.Output
		stateMu.Lock()
		for _, s := range o.Outs {
			var id int
			if strings.HasPrefix(s, "$") {
				// an output of the configuration
				out := named[s[1:]]
				if out == nil {
					panic("harness: no output " + s)
				}
				outs = append(outs, out)
				continue
			}
			if _, err := fmt.Sscanf(s, "#%d", &id); err != nil {
				fmt.Sscanf(s, "@%d", &id)
				id = newouts[id]
			}
			outs = append(outs, outObjs[id])
		}
		stateMu.Unlock()
		logger().SetOutputs(outs)
		reuse(outs)
	case "arm":
		// the output newout o.N, when it gets its next message, has another
		// goroutine set the outputs or the level of the logger
		l := logger()
		stateMu.Lock()
		var outs []api.Output
		for _, s := range o.Outs {
			var id int
			fmt.Sscanf(s, "@%d", &id)
			outs = append(outs, outObjs[newouts[id]])
		}
		out := outObjs[newouts[o.N]].(*capOutput)
		stateMu.Unlock()
		out.mu.Lock()
		if lvl := api.Level(o.Lvl); lvl != api.Uninitialized {
			out.arm = func() { l.SetLevel(lvl) }
		} else {
			out.arm = func() { l.SetOutputs(outs) }
		}
		out.mu.Unlock()
	case "query":
		l := logger()
		r.Lvl = int(l.Level())
		b := func(v bool) {
			if v {
				r.Enabled += "1"
			} else {
				r.Enabled += "0"
			}
		}
		for lvl := api.Trace; lvl <= api.Critical; lvl++ {
			b(l.LevelEnabled(lvl))
		}
		b(l.TraceEnabled())
		b(l.DebugEnabled())
		b(l.InfoEnabled())
		b(l.WarnEnabled())
		b(l.ErrorEnabled())
		b(l.CriticalEnabled())
	case "outputs":
		outs, lvl, err := m.GetLoggerOutputs(o.Name)
		errOf(err)
		r.Lvl = int(lvl)
		if err == nil {
			r.IDs = []int{}
			for _, out := range outs {
				r.IDs = append(r.IDs, outID(out))
			}
			for i, on := range o.Outs {
				stateMu.Lock()
				named[on] = outs[i]
				stateMu.Unlock()
			}
			reuse(outs)
		}
	case "mem":
		// the contents of all memory outputs known so far
		stateMu.Lock()
		for id, out := range outObjs {
			if s, ok := out.(fmt.Stringer); ok {
				r.Evs = append(r.Evs, wire.Ev{E: "mem", ID: id, B: []byte(s.String())})
			}
		}
		stateMu.Unlock()
	case "setcfg":
		liveMu.Lock()
		logged, sigAt = nil, 0
		liveMu.Unlock()
		if o.M == "nil" {
			errOf(m.SetConfig(nil))
			break
		}
		cfg := config(o.Cfg)
		errOf(m.SetConfig(cfg))
		reuseConfig(cfg)
	case "loadcfg":
		b := append([]byte(nil), o.Data...)
		errOf(m.LoadConfig(b, o.Ext))
		for i := range b {
			b[i] = '?'
		}
	case "loadfile":
		errOf(m.LoadConfigFile(o.Name))
	case "close":
		m.Close()
	case "closeouts":
		// the application closes the outputs of a logger itself
		outs, _, _ := m.GetLoggerOutputs(o.Name)
		for _, out := range outs {
			out.Close()
		}
	case "reg":
		register(o.M, o.Name, o.Ext)
	case "sleep":
		time.Sleep(time.Duration(o.D))
	case "ls":
		quietFS(func() { r.Files = list(o.Name, o.N == 1, o.N == 2) })
		r.Out = stdoutSize()
	case "sysdown":
		// the system log ends
		quietFS(func() {
			slog.stop()
			slog.conn.Close()
			os.Remove(slog.path)
		})
	case "sysup":
		quietFS(func() {
			slog = startSyslog(slog.path)
		})
	case "put":
		quietFS(func() { putFile(o.F) })
	case "append":
		// the application itself writes to a file or the console
		quietFS(func() {
			if o.F.Path == "-" {
				os.Stdout.WriteString(o.F.Text())
				return
			}
			f, err := os.OpenFile(o.F.Path, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)
			if err == nil {
				_, err = f.WriteString(o.F.Text())
				f.Close()
			}
			if err != nil {
				panic("harness: append " + err.Error())
			}
		})
	case "trunc":
		// and makes a file shorter
		quietFS(func() {
			if fi, err := os.Stat(o.Name); err == nil && fi.Size() > int64(o.N) {
				if err := os.Truncate(o.Name, int64(o.N)); err != nil {
					panic("harness: trunc " + err.Error())
				}
			}
		})
	case "mv":
		// only within the scratch directory, and nothing is overwritten
		quietFS(func() {
			if !filepath.IsLocal(o.Name) || !filepath.IsLocal(o.Ext) {
				panic("harness: mv " + o.Name + " " + o.Ext)
			}
			if _, err := os.Lstat(o.Ext); err == nil {
				return
			}
			os.MkdirAll(filepath.Dir(o.Ext), 0755)
			os.Rename(o.Name, o.Ext)
		})
	case "rm":
		quietFS(func() {
			// only below the scratch directory
			if !filepath.IsLocal(o.Name) {
				panic("harness: rm " + o.Name)
			}
			os.RemoveAll(o.Name)
		})
	case "sig":
		if cs.Live {
			liveMu.Lock()
			at := atomic.AddInt64(&order, 1)
			if sigAt == 0 {
				// of several signals the first may close the outputs
				sigAt = at
			}
			liveMu.Unlock()
			emit(&wire.Res{Op: -3, Sig: true, A: int(at)})
		}
		syscall.Kill(os.Getpid(), syscall.Signal(o.N))
	case "waitflush":
		// waits, at most o.D, until what a signal has to flush is flushed
		end := time.Now().Add(time.Duration(o.D))
		for {
			if r.S = unflushed(); r.S == "" || time.Now().After(end) {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	case "waitfiles":
		// waits, at most o.D, until the files in o.Outs have o.N bytes together
		end := time.Now().Add(time.Duration(o.D))
		for {
			var n int64
			for _, f := range o.Outs {
				if f == "-" {
					n += stdoutSize()
				} else if fi, err := os.Stat(f); err == nil {
					n += fi.Size()
				}
			}
			if n >= int64(o.N) {
				r.S = "ok"
				break
			}
			if time.Now().After(end) {
				r.S = fmt.Sprint(n)
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	case "wait":
		if cs.Bubble {
			synctest.Wait()
		}
	case "res":
		// what the process holds; a little later if it is more than o.N goroutines
		// and o.W sockets more than in the beginning, and the files o.Outs once each
		for i := 0; ; i++ {
			if cs.Bubble {
				synctest.Wait()
			}
			h := holds()
			r.Gor, r.Socks, r.Fds = h.gor-held.gor, h.socks-held.socks, h.fds
			if i >= 500 || r.Gor <= o.N && r.Socks <= o.W && within(r.Fds, o.Outs) {
				break
			}
			time.Sleep(time.Duration(o.D))
		}
	case "gosched":
		for i := 0; i < o.N; i++ {
			runtime.Gosched()
		}
	case "par":
		par(o, r)
	default:
		panic("harness: op " + o.K)
	}
}

func par(o *wire.Op, r *wire.Res) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	seq := make([][][2]int, len(o.Par))
	for t := range o.Par {
		wg.Add(1)
		seq[t] = make([][2]int, len(o.Par[t]))
		go func(t int) {
			defer wg.Done()
			<-start
			for i := range o.Par[t] {
				op := &o.Par[t][i]
				sub := wire.Res{Op: r.Op, Thr: t + 1, Sub: i, A: int(atomic.AddInt64(&order, 1))}
				doOp(op, &sub)
				sub.B = int(atomic.AddInt64(&order, 1))
				seq[t][i] = [2]int{sub.A, sub.B}
				if !op.Quiet || sub.Panic != "" || sub.Err != "" {
					emit(&sub)
				}
			}
		}(t)
	}
	close(start)
	wg.Wait()
	r.Seq = seq
}

func putFile(f *wire.File) {
	if f.Dir {
		os.MkdirAll(f.Path, 0777)
	} else {
		os.MkdirAll(filepath.Dir(f.Path), 0777)
		if f.Link != "" {
			os.Symlink(f.Link, f.Path)
			return
		}
		os.WriteFile(f.Path, []byte(f.Text()), 0666)
	}
	if f.Mode != 0 {
		os.Chmod(f.Path, os.FileMode(f.Mode))
	}
}

// syslogd stands in for the system log.
type syslogd struct {
	path string
	conn *net.UnixConn
	done chan struct{}
	mu   sync.Mutex
	got  [][]byte
}

func startSyslog(path string) *syslogd {
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: "unixgram"})
	if err != nil {
		panic("harness: " + err.Error())
	}
	c.SetReadBuffer(1 << 22)
	s := &syslogd{path: path, conn: c, done: make(chan struct{})}
	if slog != nil {
		s.got = slog.got // of before it was down
	}
	go func() {
		buf := make([]byte, 1<<20)
		for {
			n, err := c.Read(buf)
			if err != nil || string(buf[:n]) == "END" {
				close(s.done)
				return
			}
			s.mu.Lock()
			s.got = append(s.got, append([]byte(nil), buf[:n]...))
			s.mu.Unlock()
		}
	}()
	return s
}

func (s *syslogd) stop() [][]byte {
	c, err := net.DialUnix("unixgram", nil, &net.UnixAddr{Name: s.path, Net: "unixgram"})
	if err != nil {
		panic("harness: " + err.Error())
	}
	c.Write([]byte("END"))
	<-s.done
	return s.got
}

func TestWorker(t *testing.T) {
	if os.Getenv("VERIF_WORKER") == "" {
		t.Skip("not run by the driver")
	}
	in, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(in, &cs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		syscall.Exit(3)
	}
	if cs.Procs > 0 {
		runtime.GOMAXPROCS(cs.Procs)
	}
	if cs.Umask >= 0 {
		syscall.Umask(cs.Umask)
	}
	if cs.Syslog == 1 {
		slog = startSyslog(os.Getenv("VERIF_SYSLOG"))
	}
	wire.OnHook = hook
	wire.OnProbe = probed
	wire.OnAct = actOnce
	register("out", "cap", "cap")
	register("fmt", "capf", "capf")
	register("outerr", "bad", "bad")
	register("fmterr", "badf", "badf")
	emit(&wire.Res{Op: -1, Pid: os.Getpid(), Prog: os.Args[0]})
	if cs.Fault != nil {
		installFault(cs.Fault)
	}
	if cs.Bubble {
		synctest.Test(t, func(*testing.T) {
			if d := time.Until(time.Unix(cs.Start, 0)); d > 0 {
				time.Sleep(d)
			}
			ops()
		})
	} else {
		ops()
	}
}

// held is what the process held before the first op.
var held holding

type holding struct {
	gor, socks int
	fds        []string // files below the working directory, relative
}

func holds() (h holding) {
	quietFS(func() {
		wd, err := os.Getwd()
		if err == nil {
			wd, err = filepath.EvalSymlinks(wd)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			panic("harness: " + err.Error())
		}
		for _, e := range d {
			t, err := os.Readlink("/proc/self/fd/" + e.Name())
			switch {
			case err != nil:
			case strings.HasPrefix(t, "socket:"):
				h.socks++
			case t == wd:
				h.fds = append(h.fds, ".")
			case strings.HasPrefix(t, wd+"/"):
				h.fds = append(h.fds, t[len(wd)+1:])
			}
		}
	})
	sort.Strings(h.fds)
	h.gor = runtime.NumGoroutine()
	return
}

// within: every element of have is in may, not more often.
func within(have, may []string) bool {
	n := map[string]int{}
	for _, s := range may {
		n[s]++
	}
	for _, s := range have {
		if n[s]--; n[s] < 0 {
			return false
		}
	}
	return true
}

func ops() {
	if cs.NoGC {
		debug.SetGCPercent(-1)
	}
	held = holds()
	for i := range cs.Ops {
		o := &cs.Ops[i]
		r := wire.Res{Op: i}
		r.A = int(atomic.AddInt64(&order, 1))
		r.Now = time.Now().UnixNano()
		doOp(o, &r)
		r.B = int(atomic.AddInt64(&order, 1))
		if cs.Barrier && cs.Bubble {
			synctest.Wait()
		}
		r.Now2 = time.Now().UnixNano()
		r.Fired = faultsFired()
		r.FSOps = fsOps()
		r.Evs = append(r.Evs, drain()...)
		if cs.Snap != "" && (o.K == "log" || o.K == "sleep" || o.K == "close" || o.K == "put" || o.K == "rm" || o.K == "mv") {
			quietFS(func() { r.Files = list(cs.Snap, false, cs.SnapCRC) })
			r.Out = stdoutSize()
		}
		if !o.Quiet || r.Panic != "" || r.Err != "" {
			emit(&r)
		}
	}
	last := wire.Res{Op: len(cs.Ops), Done: true, FSOps: fsOps(), Trace: faultTrace(), Evs: changed()}
	if slog != nil {
		for _, b := range slog.stop() {
			last.Evs = append(last.Evs, wire.Ev{E: "syslog", B: b})
		}
	}
	emit(&last)
	syscall.Exit(0)
}
