// Closures of methods, closures in closures, generic functions and methods, and
// functions that are inlined.
package sites

import "github.com/xtfly/log4g/api"

// C logs from a closure of a method.
//
//go:noinline
func (t *T) C(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}) {
	func() {
		switch m {
		case "Trace":
			where(1); w.Trace(a...)
		case "Tracef":
			where(1); w.Tracef(f, a...)
		case "Debug":
			where(1); w.Debug(a...)
		case "Debugf":
			where(1); w.Debugf(f, a...)
		case "Info":
			where(1); w.Info(a...)
		case "Infof":
			where(1); w.Infof(f, a...)
		case "Warn":
			where(1); w.Warn(a...)
		case "Warnf":
			where(1); w.Warnf(f, a...)
		case "Error":
			where(1); w.Error(a...)
		case "Errorf":
			where(1); w.Errorf(f, a...)
		case "Critical":
			where(1); w.Critical(a...)
		case "Criticalf":
			where(1); w.Criticalf(f, a...)
		case "Printf":
			where(1); w.Printf(lvl, f, a...)
		}
		t.N++
	}()
	nop()
}

// N logs from a closure in a closure.
//
//go:noinline
func N(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}) {
	func() {
		func() {
			switch m {
			case "Trace":
				where(1); w.Trace(a...)
			case "Tracef":
				where(1); w.Tracef(f, a...)
			case "Debug":
				where(1); w.Debug(a...)
			case "Debugf":
				where(1); w.Debugf(f, a...)
			case "Info":
				where(1); w.Info(a...)
			case "Infof":
				where(1); w.Infof(f, a...)
			case "Warn":
				where(1); w.Warn(a...)
			case "Warnf":
				where(1); w.Warnf(f, a...)
			case "Error":
				where(1); w.Error(a...)
			case "Errorf":
				where(1); w.Errorf(f, a...)
			case "Critical":
				where(1); w.Critical(a...)
			case "Criticalf":
				where(1); w.Criticalf(f, a...)
			case "Printf":
				where(1); w.Printf(lvl, f, a...)
			}
		}()
		nop()
	}()
	nop()
}

// G is a generic function.
//
//go:noinline
func G[A any](where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}, x A) A {
	switch m {
	case "Trace":
		where(1); w.Trace(a...)
	case "Tracef":
		where(1); w.Tracef(f, a...)
	case "Debug":
		where(1); w.Debug(a...)
	case "Debugf":
		where(1); w.Debugf(f, a...)
	case "Info":
		where(1); w.Info(a...)
	case "Infof":
		where(1); w.Infof(f, a...)
	case "Warn":
		where(1); w.Warn(a...)
	case "Warnf":
		where(1); w.Warnf(f, a...)
	case "Error":
		where(1); w.Error(a...)
	case "Errorf":
		where(1); w.Errorf(f, a...)
	case "Critical":
		where(1); w.Critical(a...)
	case "Criticalf":
		where(1); w.Criticalf(f, a...)
	case "Printf":
		where(1); w.Printf(lvl, f, a...)
	}
	nop()
	return x
}

// GT is a generic type.
type GT[A any] struct{ X A }

// M is a method of a generic type.
//
//go:noinline
func (g GT[A]) M(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}) A {
	switch m {
	case "Trace":
		where(1); w.Trace(a...)
	case "Tracef":
		where(1); w.Tracef(f, a...)
	case "Debug":
		where(1); w.Debug(a...)
	case "Debugf":
		where(1); w.Debugf(f, a...)
	case "Info":
		where(1); w.Info(a...)
	case "Infof":
		where(1); w.Infof(f, a...)
	case "Warn":
		where(1); w.Warn(a...)
	case "Warnf":
		where(1); w.Warnf(f, a...)
	case "Error":
		where(1); w.Error(a...)
	case "Errorf":
		where(1); w.Errorf(f, a...)
	case "Critical":
		where(1); w.Critical(a...)
	case "Criticalf":
		where(1); w.Criticalf(f, a...)
	case "Printf":
		where(1); w.Printf(lvl, f, a...)
	}
	nop()
	return g.X
}

// D is promoted to its embedding type, and called through an interface.
type D struct{ n int }

// P logs.
func (d *D) P(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}) {
	switch m {
	case "Trace":
		where(1); w.Trace(a...)
	case "Tracef":
		where(1); w.Tracef(f, a...)
	case "Debug":
		where(1); w.Debug(a...)
	case "Debugf":
		where(1); w.Debugf(f, a...)
	case "Info":
		where(1); w.Info(a...)
	case "Infof":
		where(1); w.Infof(f, a...)
	case "Warn":
		where(1); w.Warn(a...)
	case "Warnf":
		where(1); w.Warnf(f, a...)
	case "Error":
		where(1); w.Error(a...)
	case "Errorf":
		where(1); w.Errorf(f, a...)
	case "Critical":
		where(1); w.Critical(a...)
	case "Criticalf":
		where(1); w.Criticalf(f, a...)
	case "Printf":
		where(1); w.Printf(lvl, f, a...)
	}
	d.n++
}

// Outer has the method of what it embeds.
type Outer struct {
	pad [3]int
	*D
}

// Caller of P
type Caller interface {
	P(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{})
}

// inl is inlined into its callers.
func inl(f func(...interface{}), a []interface{}) { f(a...) }

func inlf(f func(string, ...interface{}), s string, a []interface{}) { f(s, a...) }

// I logs from an inlined function, through a method value.
func I(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}) {
	rec := func(...interface{}) { where(2) }
	recf := func(string, ...interface{}) { where(2) }
	switch m {
	case "Trace":
		inl(rec, a); inl(w.Trace, a)
	case "Tracef":
		inlf(recf, f, a); inlf(w.Tracef, f, a)
	case "Debug":
		inl(rec, a); inl(w.Debug, a)
	case "Debugf":
		inlf(recf, f, a); inlf(w.Debugf, f, a)
	case "Info":
		inl(rec, a); inl(w.Info, a)
	case "Infof":
		inlf(recf, f, a); inlf(w.Infof, f, a)
	case "Warn":
		inl(rec, a); inl(w.Warn, a)
	case "Warnf":
		inlf(recf, f, a); inlf(w.Warnf, f, a)
	case "Error":
		inl(rec, a); inl(w.Error, a)
	case "Errorf":
		inlf(recf, f, a); inlf(w.Errorf, f, a)
	case "Critical":
		inl(rec, a); inl(w.Critical, a)
	case "Criticalf":
		inlf(recf, f, a); inlf(w.Criticalf, f, a)
	case "Printf":
		where(1); w.Printf(lvl, f, a...)
	}
	nop()
}

// S logs from the first or the second of two closures on one line.
//
//go:noinline
func S(where func(int), w api.Writer, m string, lvl api.Level, f string, a []interface{}, second bool) {
	var x, y func()
	switch m {
	case "Trace":
		x, y = func() { where(1); w.Trace(a...); nop() }, func() { where(1); w.Trace(a...); nop() }
	case "Tracef":
		x, y = func() { where(1); w.Tracef(f, a...); nop() }, func() { where(1); w.Tracef(f, a...); nop() }
	case "Debug":
		x, y = func() { where(1); w.Debug(a...); nop() }, func() { where(1); w.Debug(a...); nop() }
	case "Debugf":
		x, y = func() { where(1); w.Debugf(f, a...); nop() }, func() { where(1); w.Debugf(f, a...); nop() }
	case "Info":
		x, y = func() { where(1); w.Info(a...); nop() }, func() { where(1); w.Info(a...); nop() }
	case "Infof":
		x, y = func() { where(1); w.Infof(f, a...); nop() }, func() { where(1); w.Infof(f, a...); nop() }
	case "Warn":
		x, y = func() { where(1); w.Warn(a...); nop() }, func() { where(1); w.Warn(a...); nop() }
	case "Warnf":
		x, y = func() { where(1); w.Warnf(f, a...); nop() }, func() { where(1); w.Warnf(f, a...); nop() }
	case "Error":
		x, y = func() { where(1); w.Error(a...); nop() }, func() { where(1); w.Error(a...); nop() }
	case "Errorf":
		x, y = func() { where(1); w.Errorf(f, a...); nop() }, func() { where(1); w.Errorf(f, a...); nop() }
	case "Critical":
		x, y = func() { where(1); w.Critical(a...); nop() }, func() { where(1); w.Critical(a...); nop() }
	case "Criticalf":
		x, y = func() { where(1); w.Criticalf(f, a...); nop() }, func() { where(1); w.Criticalf(f, a...); nop() }
	case "Printf":
		x, y = func() { where(1); w.Printf(lvl, f, a...); nop() }, func() { where(1); w.Printf(lvl, f, a...); nop() }
	}
	if second {
		x = y
	}
	x()
	nop()
}
