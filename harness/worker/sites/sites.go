// Package sites holds call sites of the logging methods in another package
// than the worker's. Where is called on the line of the logging call and notes
// the application's stack.
package sites

import "github.com/xtfly/log4g/api"

// T has methods that log.
type T struct{ N int }

// P logs from a method with a pointer receiver.
//
//go:noinline
func (t *T) P(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}) {
	switch m {
	case "Trace":
		where(1); w.Trace(a...)
	case "Tracef":
		where(1); w.Tracef(f, a...)
	case "Debug":
		where(1); w.Debug(a...)
	case "Debugf":
		where(1); w.Debugf(f, a...)
	case "Info":
		where(1); w.Info(a...)
	case "Infof":
		where(1); w.Infof(f, a...)
	case "Warn":
		where(1); w.Warn(a...)
	case "Warnf":
		where(1); w.Warnf(f, a...)
	case "Error":
		where(1); w.Error(a...)
	case "Errorf":
		where(1); w.Errorf(f, a...)
	case "Critical":
		where(1); w.Critical(a...)
	case "Criticalf":
		where(1); w.Criticalf(f, a...)
	case "Printf":
		where(1); w.Printf(lvl, f, a...)
	}
	t.N++
}

// L logs from a closure, on a logger rather than a writer.
//
//go:noinline
func L(where func(int), l api.Logger, m string, lvl api.Level, f string, a []interface{}) {
	func() {
		switch m {
		case "Trace":
			where(1); l.Trace(a...)
		case "Tracef":
			where(1); l.Tracef(f, a...)
		case "Debug":
			where(1); l.Debug(a...)
		case "Debugf":
			where(1); l.Debugf(f, a...)
		case "Info":
			where(1); l.Info(a...)
		case "Infof":
			where(1); l.Infof(f, a...)
		case "Warn":
			where(1); l.Warn(a...)
		case "Warnf":
			where(1); l.Warnf(f, a...)
		case "Error":
			where(1); l.Error(a...)
		case "Errorf":
			where(1); l.Errorf(f, a...)
		case "Critical":
			where(1); l.Critical(a...)
		case "Criticalf":
			where(1); l.Criticalf(f, a...)
		case "Printf":
			where(1); l.Printf(lvl, f, a...)
		}
	}()
	nop()
}

//go:noinline
func nop() {}
