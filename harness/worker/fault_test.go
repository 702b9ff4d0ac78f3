//go:build faults

package worker

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xtfly/log4g/verif/wire"
)

// The overlay of package os consults os.VerifHook before each operation.
var (
	faultMu sync.Mutex
	fired   []string
	count   int
	quiet   int
	ftrace  []string
	cwd     string
)

func installFault(f *wire.Fault) {
	cwd, _ = os.Getwd()
	kinds := map[string]bool{}
	for _, k := range strings.Split(f.Kinds, ",") {
		if k != "" {
			kinds[k] = true
		}
	}
	os.VerifHook = func(kind, path string) (int, bool) {
		var d time.Duration
		defer func() {
			if d > 0 {
				time.Sleep(d)
			}
		}()
		faultMu.Lock()
		defer faultMu.Unlock()
		if quiet > 0 {
			return 0, false
		}
		if filepath.IsAbs(path) && !strings.HasPrefix(path, cwd+"/") {
			return 0, false
		}
		if len(kinds) > 0 && !kinds[kind] {
			return 0, false
		}
		if f.Dir != "" && !strings.Contains(path, f.Dir) {
			return 0, false
		}
		count++
		if len(f.Stall) > 0 {
			d = time.Duration(f.Stall[count%len(f.Stall)])
		}
		if f.Trace {
			ftrace = append(ftrace, fmt.Sprint(kind, " ", path))
		}
		if f.Kill == count {
			syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
			select {}
		}
		if f.From > 0 && count >= f.From && count < f.To {
			fired = append(fired, kind+" "+path)
			return f.Errno, f.Short
		}
		return 0, false
	}
}

func faultsFired() []string {
	faultMu.Lock()
	defer faultMu.Unlock()
	r := fired
	fired = nil
	return r
}

func fsOps() int {
	faultMu.Lock()
	defer faultMu.Unlock()
	return count
}

func faultTrace() []string {
	faultMu.Lock()
	defer faultMu.Unlock()
	return ftrace
}

func quietFS(f func()) {
	faultMu.Lock()
	quiet++
	faultMu.Unlock()
	f()
	faultMu.Lock()
	quiet--
	faultMu.Unlock()
}
