// Package driver generates cases, has fresh worker processes execute them
// against log4g and judges what happened.
package driver

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/verif/wire"
)

// Result of one worker process.
type Result struct {
	Dir  string
	Res  []wire.Res // in order of arrival
	Op   map[int]*wire.Res
	Out  []byte // console
	Err  string // standard error, possibly cut
	Exit int
	Sig  syscall.Signal
	Hang bool
	Done bool
	Last *wire.Res
	Pid  int
	Prog string
}

// Infra is a failure of the machinery, never of the code under test.
type Infra struct{ error }

func infra(f string, a ...interface{}) {
	panic(Infra{fmt.Errorf(f, a...)})
}

var hangAfter = 40 * time.Second

// worker binaries, set by the environment
func binary(kind string) string {
	p := os.Getenv("VERIF_WORKER_" + strings.ToUpper(kind))
	if p == "" {
		infra("no worker of kind %s was built", kind)
	}
	return p
}

type capped struct {
	b   bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if r := c.max - c.b.Len(); r > 0 {
		if len(p) > r {
			c.b.Write(p[:r])
		} else {
			c.b.Write(p)
		}
	}
	return len(p), nil
}

// NewDir makes the scratch directory of an execution.
func (x *X) NewDir() string {
	x.dirs++
	d := filepath.Join(x.base, fmt.Sprintf("c%d", x.dirs))
	w := filepath.Join(d, "w")
	if err := os.MkdirAll(w, 0755); err != nil {
		infra("%v", err)
	}
	if err := os.Chmod(d, 0755); err != nil {
		infra("%v", err)
	}
	if err := os.Chmod(w, 0777); err != nil {
		infra("%v", err)
	}
	if err := os.Chown(w, nobody, nobody); err != nil && !errors.Is(err, syscall.EPERM) {
		infra("%v", err)
	}
	x.cleanup = append(x.cleanup, d)
	return w
}

func (x *X) clean() {
	for _, d := range x.cleanup {
		if strings.HasPrefix(d, x.base+"/") {
			os.RemoveAll(d)
		}
	}
	x.cleanup = nil
}

const nobody = 65534

// Put creates the files of a case.
func Put(dir string, files []wire.File, root bool) {
	for i := range files {
		f := &files[i]
		if !filepath.IsLocal(f.Path) {
			infra("file %s", f.Path)
		}
		p := filepath.Join(dir, f.Path)
		mk := func(d string) {
			var todo []string
			for d != dir && len(d) > len(dir) {
				if _, err := os.Lstat(d); err == nil {
					break
				}
				todo = append(todo, d)
				d = filepath.Dir(d)
			}
			for i := len(todo) - 1; i >= 0; i-- {
				if err := os.Mkdir(todo[i], 0755); err != nil {
					infra("%v", err)
				}
				if !root {
					os.Lchown(todo[i], nobody, nobody)
				}
			}
		}
		mk(filepath.Dir(p))
		var err error
		switch {
		case f.Dir:
			mk(p)
		case f.Link != "":
			err = os.Symlink(f.Link, p)
		case f.Sparse > 0:
			err = os.WriteFile(p, []byte(f.Text()), 0644)
			if err == nil {
				err = os.Truncate(p, f.Sparse)
			}
		default:
			err = os.WriteFile(p, []byte(f.Text()), 0644)
		}
		if err == nil && f.Mode != 0 {
			err = os.Chmod(p, os.FileMode(f.Mode))
		}
		if err != nil {
			infra("%v", err)
		}
		if !root {
			os.Lchown(p, nobody, nobody)
		}
	}
}

// Run executes a case in a fresh process of the given kind of worker.
func (x *X) Run(kind string, c *wire.Case) *Result {
	return x.RunIn(kind, c, x.NewDir())
}

// RunIn is Run in an existing directory. A worker that seems to hang is given
// a second chance with three times as long, if nothing forbids repeating it.
func (x *X) RunIn(kind string, c *wire.Case, dir string) *Result {
	Put(dir, c.Files, c.Root)
	r := x.run1(kind, c, dir, hangAfter)
	x.Execs++
	return r
}

func (x *X) run1(kind string, c *wire.Case, dir string, limit time.Duration) *Result {
	in, err := json.Marshal(c)
	if err != nil {
		infra("%v", err)
	}
	bin := binary(kind)
	cmd := exec.Command(bin, "-test.run=^TestWorker$", "-test.timeout=0")
	if c.Argv0 != "" {
		cmd.Args[0] = c.Argv0
	}
	cmd.Dir = dir
	tz := c.TZ
	if tz == "" {
		tz = "UTC"
	}
	cmd.Env = []string{"VERIF_WORKER=1", "TZ=" + tz, "HOME=" + dir, "TMPDIR=" + dir + "/tmp", "PATH=/usr/bin:/bin",
		"VERIF_SYSLOG=" + dir + "/.syslog", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "PWD=" + dir}
	cmd.Stdin = bytes.NewReader(in)
	if os.Getuid() == 0 && !c.Root {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	er := &capped{max: 1 << 20}
	cmd.Stderr = er
	rp, wp, err := os.Pipe()
	if err != nil {
		infra("%v", err)
	}
	defer rp.Close()
	cmd.ExtraFiles = []*os.File{wp}
	outPath := filepath.Join(filepath.Dir(dir), "out")
	var outBuf bytes.Buffer
	var outDone chan struct{}
	var outF, outR *os.File
	if c.Slow > 0 {
		outR, outF, err = os.Pipe()
		if err != nil {
			infra("%v", err)
		}
		// a small pipe, so that a writer soon has to wait
		syscall.Syscall(syscall.SYS_FCNTL, outF.Fd(), 1031, 4096)
		outDone = make(chan struct{})
		go func() {
			defer close(outDone)
			buf := make([]byte, 4096)
			for n := 0; ; n++ {
				if n < 100 {
					time.Sleep(time.Duration(c.Slow) * time.Millisecond)
				}
				k, err := outR.Read(buf)
				outBuf.Write(buf[:k])
				if err != nil {
					return
				}
			}
		}()
	} else {
		outF, err = os.OpenFile(outPath, os.O_RDWR|os.O_CREATE|os.O_APPEND|os.O_TRUNC, 0666)
		if err != nil {
			infra("%v", err)
		}
	}
	cmd.Stdout = outF
	cmd.WaitDelay = 10 * time.Second
	for try := 0; ; try++ {
		err = cmd.Start()
		if err == nil {
			break
		}
		if try > 5 || !(errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ENOMEM) || errors.Is(err, syscall.ETXTBSY)) {
			infra("starting the worker: %v", err)
		}
		time.Sleep(200 * time.Millisecond)
		n := exec.Command(bin, cmd.Args[1:]...)
		n.Args[0] = cmd.Args[0]
		n.Dir, n.Env, n.SysProcAttr, n.Stderr, n.ExtraFiles, n.Stdout, n.WaitDelay = cmd.Dir, cmd.Env, cmd.SysProcAttr, cmd.Stderr, cmd.ExtraFiles, cmd.Stdout, cmd.WaitDelay
		n.Stdin = bytes.NewReader(in)
		cmd = n
	}
	wp.Close()
	outF.Close()
	res := &Result{Dir: dir, Op: map[int]*wire.Res{}}
	hung := false
	var timer, timer2 *time.Timer
	timer = time.AfterFunc(limit, func() {
		hung = true
		cmd.Process.Signal(syscall.SIGQUIT)
	})
	timer2 = time.AfterFunc(limit+5*time.Second, func() { cmd.Process.Kill() })
	br := bufio.NewReaderSize(rp, 1<<16)
	for {
		line, err := br.ReadBytes('\n')
		if len(line) > 0 && err == nil {
			var r wire.Res
			if e := json.Unmarshal(line, &r); e != nil {
				infra("result %q: %v", line, e)
			}
			res.Res = append(res.Res, r)
		}
		if err != nil {
			if err != io.EOF {
				infra("%v", err)
			}
			break
		}
	}
	err = cmd.Wait()
	timer.Stop()
	timer2.Stop()
	if outDone != nil {
		<-outDone
		outR.Close()
		res.Out = outBuf.Bytes()
	} else {
		res.Out, _ = os.ReadFile(outPath)
	}
	res.Err = er.b.String()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			res.Sig = ws.Signal()
		} else {
			res.Exit = ws.ExitStatus()
		}
	} else if err != nil {
		infra("worker: %v", err)
	}
	panicked := false
	for i := range res.Res {
		r := &res.Res[i]
		if strings.HasPrefix(r.Panic, "harness:") {
			if !panicked {
				infra("%s", r.Panic)
			}
			r.Panic = "" // follows from the panic of an earlier operation
		}
		panicked = panicked || r.Panic != ""
		switch {
		case r.Op == -1:
			res.Pid, res.Prog = r.Pid, r.Prog
		case r.Op < -1:
		case r.Done:
			res.Done = true
			res.Last = r
		case r.Thr == 0:
			res.Op[r.Op] = r
		}
	}
	res.Hang = hung && !res.Done
	if res.Exit == 3 {
		infra("worker: %s", res.Err)
	}
	return res
}

// Crash tells how the worker died, if it should not have.
func (r *Result) Crash() error {
	for i := range r.Res {
		if p := r.Res[i].Panic; p != "" {
			return fmt.Errorf("panic in op %d/%d/%d: %s", r.Res[i].Op, r.Res[i].Thr, r.Res[i].Sub, p)
		}
	}
	if r.Done {
		return nil
	}
	if r.Hang {
		return fmt.Errorf("the process hangs; stacks: %s", tail(r.Err, 6000))
	}
	for _, s := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: ", "SIGSEGV", "unexpected fault", "all goroutines are asleep", "concurrent map"} {
		if i := strings.Index(r.Err, s); i >= 0 {
			return fmt.Errorf("the process crashed: %s", cut(r.Err[i:], 3000))
		}
	}
	if r.Pid == 0 {
		infra("the worker did not start: exit %d signal %v: %s", r.Exit, r.Sig, tail(r.Err, 2000))
	}
	if r.Exit == 1 {
		return fmt.Errorf("the process ended itself with exit status 1: %s", tail(r.Err, 2000))
	}
	infra("the worker ended unexpectedly: exit %d signal %v: %s", r.Exit, r.Sig, tail(r.Err, 2000))
	return nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// Tree reads a directory: path relative to dir to file.
type Tree map[string]wire.Info

// ReadTree reads the regular files, directories and links below dir.
func ReadTree(dir string) Tree {
	t := Tree{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == ".syslog" {
			return nil
		}
		i := wire.Info{Path: rel, Size: fi.Size(), Mode: int(fi.Mode().Perm()), Kind: "f"}
		switch {
		case fi.IsDir():
			i.Kind = "d"
			i.Size = 0
		case fi.Mode()&os.ModeSymlink != 0:
			i.Kind = "l"
		case fi.Mode().IsRegular():
			if fi.Size() < 1<<26 {
				b, e := os.ReadFile(p)
				if e != nil {
					infra("%v", e)
				}
				i.Data = b
			}
		default:
			i.Kind = "o"
		}
		t[rel] = i
		return nil
	})
	return t
}

// Names of the regular files.
func (t Tree) Names() []string {
	var r []string
	for n, i := range t {
		if i.Kind == "f" {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}
