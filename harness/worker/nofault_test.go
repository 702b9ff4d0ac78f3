//go:build !faults

package worker

import "github.com/xtfly/log4g/verif/wire"

func installFault(*wire.Fault) { panic("harness: built without faults") }
func faultsFired() []string    { return nil }
func fsOps() int               { return 0 }
func faultTrace() []string     { return nil }
func quietFS(f func())         { f() }
