package driver

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
)

// inProcess runs code under test in this process; a panic or a hang of it is
// a violation.
func inProcess(f func() error) error {
	done := make(chan error, 1)
	go func() {
		var err error
		var inf *Infra
		defer func() {
			if r := recover(); r != nil {
				if i, ok := r.(Infra); ok {
					inf = &i
				} else {
					err = fmt.Errorf("panic: %v\n%s", r, cut(string(debug.Stack()), 3000))
				}
			}
			if inf != nil {
				done <- *inf
				return
			}
			done <- err
		}()
		err = f()
	}()
	select {
	case err := <-done:
		if i, ok := err.(Infra); ok {
			panic(i)
		}
		return err
	case <-time.After(120 * time.Second):
		b := make([]byte, 1<<16)
		return fmt.Errorf("no end after 120 s; stacks: %s", b[:runtime.Stack(b, true)])
	}
}
