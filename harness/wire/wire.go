// Package wire defines the language in which the driver (generators, models,
// oracles) tells a fresh worker process what to do with log4g and in which the
// worker reports what it observed. A Case is everything one execution depends
// on, so that a saved Case is a replay file.
package wire

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"time"
)

// Case is one generated execution.
type Case struct {
	TZ      string `json:",omitempty"` // time zone of the worker
	Bubble  bool   `json:",omitempty"` // run under a virtual clock
	Start   int64  `json:",omitempty"` // virtual start, seconds since 1970 (Bubble only, after 2000)
	Procs   int    `json:",omitempty"` // GOMAXPROCS, 0: default
	Umask   int    `json:",omitempty"`
	Root    bool   `json:",omitempty"` // keep root privileges
	Syslog  int    `json:",omitempty"` // 1: stand-in system log listens, 0: nothing listens
	Files   []File `json:",omitempty"` // created before the worker starts
	Ops     []Op
	Acts    [][]Op   `json:",omitempty"` // what operands do
	Fault   *Fault   `json:",omitempty"`
	Snap    string   `json:",omitempty"` // directory listed after every log, sleep and close op
	SnapCRC bool     `json:",omitempty"` // with checksums
	Caps    []string `json:",omitempty"` // creators registered before the first op, see worker
	Argv0   string   `json:",omitempty"`
	Slow    int      `json:",omitempty"` // the reader of the console waits this many ms before each read of 4 KB
	Live    bool     `json:",omitempty"` // report events and signals at once
	Barrier bool     `json:",omitempty"` // virtual clock: let all goroutines settle after every op
	NoGC    bool     `json:",omitempty"` // no garbage collection
	Keep    bool     `json:",omitempty"` // capturing outputs keep their events and look at them again at the end
}

// File is a file (or directory, or symlink) put into the scratch directory.
type File struct {
	Path    string
	Content []byte `json:",omitempty"`
	Msg     *Msg   `json:",omitempty"` // content given as a message
	Sparse  int64  `json:",omitempty"` // truncate to this size instead
	Mode    int    `json:",omitempty"`
	Dir     bool   `json:",omitempty"`
	Link    string `json:",omitempty"`
}

// Text of the file
func (f File) Text() string {
	if f.Msg != nil {
		return f.Msg.Text()
	}
	return string(f.Content)
}

// Fault is applied by the instrumented package os.
type Fault struct {
	Dir   string  `json:",omitempty"` // only operations on paths containing this
	Kill  int     `json:",omitempty"` // kill the process before operation number Kill (1..)
	From  int     `json:",omitempty"` // fail operations From..To-1
	To    int     `json:",omitempty"`
	Kinds string  `json:",omitempty"` // only these kinds, comma separated
	Errno int     `json:",omitempty"`
	Short bool    `json:",omitempty"` // a failing write first writes half of the data
	Trace bool    `json:",omitempty"`
	Stall []int64 `json:",omitempty"` // let operations take these times (ns), in turn
}

// Cfg mirrors api.Config.
type Cfg struct {
	Formats []map[string]string
	Outputs []map[string]string
	Loggers []CfgLogger
}

// CfgLogger mirrors api.CfgLogger.
type CfgLogger struct {
	Name  string
	Level string   `json:",omitempty"`
	Outs  []string `json:",omitempty"`
}

// Op is one step of a case. K selects the kind, see worker.
type Op struct {
	K    string
	L    int    `json:",omitempty"` // logger slot
	W    int    `json:",omitempty"` // writer slot + 1, 0: log on the logger itself
	Name string `json:",omitempty"`

	Cfg  *Cfg   `json:",omitempty"`
	Data []byte `json:",omitempty"`
	Ext  string `json:",omitempty"`

	M    string `json:",omitempty"` // method
	Lvl  int    `json:",omitempty"` // for Printf, SetLevel
	Fmt  string `json:",omitempty"`
	Args []Val  `json:",omitempty"`
	Msg  *Msg   `json:",omitempty"` // text given as a generated message: plain method or f-method without operands
	Site int    `json:",omitempty"`

	Fields []Field  `json:",omitempty"`
	Outs   []string `json:",omitempty"`
	N      int      `json:",omitempty"`
	D      int64    `json:",omitempty"` // duration in ns

	Par   [][]Op `json:",omitempty"`
	Quiet bool   `json:",omitempty"` // report only failures
	Depth int    `json:",omitempty"` // extra application frames below the call site
	Trace bool   `json:",omitempty"` // report the application frames
	F     *File  `json:",omitempty"`
}

// Field of WithFields or WithCtx.
type Field struct {
	Key string
	Val Val
}

// Msg is a self-describing message text: thread, sequence number and a
// deterministic filling up to the wanted length.
type Msg struct {
	T, I int
	Len  int `json:",omitempty"`
}

// fillings of messages; which one depends on the thread and the number.
var fillings = []string{
	"abcdefghijklmnopqrstuvwxyz0123456789",
	"abcdefghijklmnopqrstuvwxyz0123456789",
	"abcdefghijklmnopqrstuvwxyz0123456789",
	"äé日本語 𝄞 ü¿ ",
	"one line\n\nanother\r\n\tand more\n",
	"\x00\xff\xfe\x80\x1b[0m\\\"'}%{msg}",
	"100% %d %s %!v %%",
	"          ",
}

// Text returns the text, which always ends in a newline and is at least as
// long as its frame.
func (m Msg) Text() string {
	head := fmt.Sprintf("<%d.%d.%d:", m.T, m.I, m.Len)
	tail := fmt.Sprintf(":%d.%d>\n", m.T, m.I)
	n := m.Len - len(head) - len(tail)
	if n <= 0 {
		return head + tail
	}
	filling := fillings[(m.T*5+m.I*3+m.I/8)%len(fillings)]
	off := (m.T*7 + m.I*13) % len(filling)
	var b strings.Builder
	b.Grow(m.Len)
	b.WriteString(head)
	for n > 0 {
		k := len(filling) - off
		if k > n {
			k = n
		}
		b.WriteString(filling[off : off+k])
		n -= k
		off = 0
	}
	b.WriteString(tail)
	return b.String()
}

// Hook is an operand whose String method calls the library.
type Hook struct {
	Kind int
	Name string
}

// OnHook is what it calls, set by the worker.
var OnHook func(kind int, name string)

func (h Hook) String() string {
	if OnHook != nil {
		OnHook(h.Kind, h.Name)
	}
	return "hook"
}

// OnAct is told whenever an act is used, set by the worker.
var OnAct func(k int)

func act(k int) string {
	if OnAct != nil {
		OnAct(k)
	}
	return fmt.Sprintf("act%d", k)
}

// Operands that do something, when they are first used.
type (
	ActStr int
	ActErr int
	ActFmt int
	ActPtr struct{ K int }
)

func (a ActStr) String() string             { return act(int(a)) }
func (a ActErr) Error() string              { return act(int(a)) }
func (a ActFmt) Format(s fmt.State, c rune) { fmt.Fprint(s, act(int(a))) }
func (a *ActPtr) String() string            { return act(a.K) }

// Val is an operand or field value.
type Val struct {
	T string
	S string  `json:",omitempty"`
	I int64   `json:",omitempty"`
	F float64 `json:",omitempty"`
	L []Val   `json:",omitempty"`
}

// Pair is a struct operand.
type Pair struct {
	A int
	B string
}

// Name is a Stringer operand.
type Name string

func (n Name) String() string { return "name(" + string(n) + ")" }

// Both is an operand that is an error and a Stringer.
type Both string

func (b Both) String() string { return "string(" + string(b) + ")" }
func (b Both) Error() string  { return "error(" + string(b) + ")" }

// Formatted is an operand that formats itself.
type Formatted string

func (f Formatted) String() string { return "string(" + string(f) + ")" }

// Format is for package fmt.
func (f Formatted) Format(s fmt.State, c rune) {
	w, wok := s.Width()
	fmt.Fprintf(s, "format(%s %c %d %v %v)", string(f), c, w, wok, s.Flag('+'))
}

// GoString is an operand with a syntax of its own.
type GoString string

// GoString is for package fmt.
func (g GoString) GoString() string { return "go(" + string(g) + ")" }

// Broken is an operand whose String method panics.
type Broken struct{ S string }

func (b Broken) String() string { panic(b.S) }

// OnProbe is told whenever a probe is used, set by the worker.
var OnProbe func(id int64)

func probe(id int64) {
	if OnProbe != nil {
		OnProbe(id)
	}
}

// Operands that tell when they are used.
type (
	ProbeStr int64
	ProbeErr int64
	ProbeFmt int64
	ProbeGo  int64
	ProbePtr struct{ ID int64 }
)

func (p ProbeStr) String() string  { probe(int64(p)); return fmt.Sprintf("probe%d", int64(p)) }
func (p ProbeErr) Error() string   { probe(int64(p)); return fmt.Sprintf("probe%d", int64(p)) }
func (p ProbeGo) GoString() string { probe(int64(p)); return fmt.Sprintf("probe%d", int64(p)) }
func (p *ProbePtr) String() string { probe(p.ID); return fmt.Sprintf("probe%d", p.ID) }

// Format is for package fmt.
func (p ProbeFmt) Format(s fmt.State, c rune) {
	probe(int64(p))
	fmt.Fprintf(s, "probe%d", int64(p))
}

// ProbeCtx is a context that tells when it is used.
type ProbeCtx struct {
	context.Context
	ID int64
}

// Value is what loggers ask for fields.
func (c ProbeCtx) Value(key interface{}) interface{} {
	probe(c.ID)
	return c.Context.Value(key)
}

// Go returns the value.
func (v Val) Go() interface{} {
	switch v.T {
	case "s":
		return v.S
	case "i":
		return int(v.I)
	case "i64":
		return v.I
	case "u8":
		return uint8(v.I)
	case "f":
		return v.F
	case "b":
		return v.I != 0
	case "err":
		return errors.New(v.S)
	case "dur":
		return time.Duration(v.I)
	case "by", "mby":
		return []byte(v.S)
	case "hex":
		b, err := hex.DecodeString(v.S)
		if err != nil {
			panic(err)
		}
		return string(b)
	case "mmap":
		return map[string]int{v.S: int(v.I)}
	case "r":
		return rune(v.I)
	case "pair":
		return Pair{int(v.I), v.S}
	case "ppair", "mpair":
		return &Pair{int(v.I), v.S}
	case "name":
		return Name(v.S)
	case "l":
		return Values(v.L)
	case "rep":
		return strings.Repeat(v.S, int(v.I))
	case "hook":
		return Hook{int(v.I), v.S}
	case "nil":
		return nil
	case "probe":
		switch v.S {
		case "str":
			return ProbeStr(v.I)
		case "err":
			return ProbeErr(v.I)
		case "fmt":
			return ProbeFmt(v.I)
		case "go":
			return ProbeGo(v.I)
		}
		return &ProbePtr{v.I}
	case "act":
		switch v.S {
		case "str":
			return ActStr(v.I)
		case "err":
			return ActErr(v.I)
		case "fmt":
			return ActFmt(v.I)
		}
		return &ActPtr{int(v.I)}
	case "both":
		return Both(v.S)
	case "fmtr":
		return Formatted(v.S)
	case "gostr":
		return GoString(v.S)
	case "panics":
		return Broken{v.S}
	case "nilp":
		return (*Name)(nil)
	case "nilerr":
		return error(nil)
	}
	panic("unknown value type " + v.T)
}

// Values converts a list.
func Values(l []Val) []interface{} {
	if len(l) == 0 {
		return nil
	}
	r := make([]interface{}, len(l))
	for i := range l {
		r[i] = l[i].Go()
	}
	return r
}

// Res is what the worker reports for one op, as one line of JSON.
type Res struct {
	Op      int        // index of the op
	Thr     int        `json:",omitempty"` // thread of a par op + 1
	Sub     int        `json:",omitempty"`
	Pid     int        `json:",omitempty"`
	Prog    string     `json:",omitempty"`
	Err     string     `json:",omitempty"`
	Panic   string     `json:",omitempty"`
	Now     int64      `json:",omitempty"` // time before the op, ns
	Now2    int64      `json:",omitempty"` // time after it
	Seq     [][][2]int `json:",omitempty"` // par: order numbers before and after each op of each thread
	Lvl     int        `json:",omitempty"`
	Enabled string     `json:",omitempty"` // result of the predicates, 1/0 each
	ID      int        `json:",omitempty"` // identity of a logger
	IDs     []int      `json:",omitempty"` // identities of outputs
	S       string     `json:",omitempty"`
	Frames  []Loc      `json:",omitempty"`
	Evs     []Ev       `json:",omitempty"`
	Files   []Info     `json:",omitempty"`
	Fired   []string   `json:",omitempty"` // faults that fired during the op: kind and path
	FSOps   int        `json:",omitempty"` // file-system operations so far
	Trace   []string   `json:",omitempty"`
	A       int        `json:",omitempty"` // global order: before the op
	B       int        `json:",omitempty"` // after the op
	Sig     bool       `json:",omitempty"`
	Gor     int        `json:",omitempty"` // goroutines, sockets and open files, see op res
	Socks   int        `json:",omitempty"`
	Probes  [][2]int   `json:",omitempty"` // uses of probes: identity, order number
	Fds     []string   `json:",omitempty"`
	Out     int64      `json:",omitempty"` // size of the console output
	Done    bool       `json:",omitempty"`
}

// Loc is a stack frame.
type Loc struct {
	File string
	Line int
	Func string
}

// Ev is an observation of a custom creator, formatter or output.
type Ev struct {
	E    string            // newout newfmt newerr setfmt send close
	Name string            `json:",omitempty"` // name of output/format in its configuration
	ID   int               `json:",omitempty"` // identity of the instance
	F    int               `json:",omitempty"` // identity of the formatter
	C    string            `json:",omitempty"` // tag of the creator
	Attr map[string]string `json:",omitempty"`
	Log  string            `json:",omitempty"` // event: logger name
	Lvl  int               `json:",omitempty"`
	Msg  []byte            `json:",omitempty"`
	B    []byte            `json:",omitempty"` // formatted bytes
	T    int64             `json:",omitempty"`
}

// Info describes a file.
type Info struct {
	Path string
	Size int64
	Mode int
	Kind string // f d l
	Sum  uint32 `json:",omitempty"`
	Data []byte `json:",omitempty"`
}

// Levels
const (
	Uninit = iota
	All
	Trace
	Debug
	Info_
	Warn
	Error
	Critical
	Off
)

// LevelNames in order.
var LevelNames = []string{"", "ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "CRITICAL", "OFF"}

// LevelShort in order.
var LevelShort = []string{"", "ALL", "TAC", "DBG", "INF", "WRN", "ERR", "CRI", "OFF"}

// Methods of api.Writer.
var Methods = []string{"Trace", "Tracef", "Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf", "Critical", "Criticalf", "Printf"}

// MethodLevel returns the level at which an op logs.
func MethodLevel(o *Op) int {
	if o.M == "Printf" {
		return o.Lvl
	}
	m := strings.ToUpper(strings.TrimSuffix(o.M, "f"))
	for i, n := range LevelNames {
		if n == m {
			return i
		}
	}
	panic("no level for " + o.M)
}

// Text is the message text that an op must produce.
func (o *Op) Text() string {
	if o.Msg != nil {
		return o.Msg.Text()
	}
	args := Values(o.Args)
	if strings.HasSuffix(o.M, "f") {
		if len(args) == 0 {
			return o.Fmt
		}
		return fmt.Sprintf(o.Fmt, args...)
	}
	return fmt.Sprint(args...)
}
