package driver

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// X is what a check uses to execute cases and to account for them.
type X struct {
	base    string
	dirs    int
	cleanup []string

	Execs   int
	classes map[string]int
	cur     map[string]bool
	nontriv bool
	known   map[string]string
	known0  []string
	t       tier
}

type tier struct{ thorough bool }

// Class counts the current case in a class.
func (x *X) Class(f string, a ...interface{}) { x.cur[fmt.Sprintf(f, a...)] = true }

// NonTrivial marks the current case.
func (x *X) NonTrivial(b bool) { x.nontriv = x.nontriv || b }

// Known reports a finding that is listed in the known-findings file; it
// returns an error for one that is not.
func (x *X) Known(key, what string) error {
	for _, k := range x.known0 {
		if k == key {
			x.known[key] = what
			return nil
		}
	}
	return fmt.Errorf("%s: %s", key, what)
}

// Prop is a property with its generator and oracle.
type Prop struct {
	ID     string
	Rule   string // how cases are made and what makes one non-trivial
	Kinds  string // kinds of worker needed, comma separated
	InProc bool   // the code under test runs in the driver's process
	gen    func(t *rapid.T) interface{}
	check  func(x *X, in interface{}) error
	decode func(b []byte) (interface{}, error)
	fixed  func() []interface{}
}

var props = map[string]*Prop{}

// add registers a property. fixed cases run before the generated ones.
func add[T any](p Prop, gen func(t *rapid.T) T, check func(x *X, in *T) error, fixed ...func() []T) {
	p.gen = func(t *rapid.T) interface{} { v := gen(t); return &v }
	p.check = func(x *X, in interface{}) error { return check(x, in.(*T)) }
	p.decode = func(b []byte) (interface{}, error) {
		v := new(T)
		return v, json.Unmarshal(b, v)
	}
	p.fixed = func() (r []interface{}) {
		for _, f := range fixed {
			for _, v := range f() {
				v := v
				r = append(r, &v)
			}
		}
		return
	}
	if p.Kinds == "" {
		p.Kinds = "plain"
	}
	if props[p.ID] != nil {
		panic("twice " + p.ID)
	}
	props[p.ID] = &p
}

// Report of one shard, merged by the orchestrator.
type Report struct {
	Property    string
	Rule        string
	Evaluations int
	Execs       int
	Fixed       int
	Hashes      []string // of distinct non-trivial cases
	Classes     map[string]int
	Samples     []json.RawMessage
	Violation   string          `json:",omitempty"`
	Replay      json.RawMessage `json:",omitempty"`
	Infra       string          `json:",omitempty"`
	Known       map[string]string
	Skipped     int
	Wall        float64
}

type replayFile struct {
	Property string
	Reason   string
	Case     json.RawMessage
}

func env(n string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return def
}

// evaluate runs one case, turning panics of the oracle into Infra.
func evaluate(p *Prop, x *X, in interface{}) (err error) {
	defer x.clean()
	x.cur = map[string]bool{}
	x.nontriv = false
	return p.check(x, in)
}

// Drive is the entry point of the driver binary.
func Drive(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	if id == "" {
		t.Skip("run by /verif/check")
	}
	start := time.Now()
	p := props[id]
	rep := &Report{Property: id, Classes: map[string]int{}, Known: map[string]string{}}
	out := os.Getenv("VERIF_REPORT")
	write := func() {
		rep.Wall = time.Since(start).Seconds()
		b, err := json.MarshalIndent(rep, "", " ")
		if err == nil {
			err = os.WriteFile(out, b, 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "report:", err)
			os.Exit(2)
		}
	}
	defer write()
	if p == nil {
		rep.Infra = "no property " + id
		return
	}
	rep.Rule = p.Rule
	x := &X{base: os.Getenv("VERIF_SCRATCH"), classes: rep.Classes, known: rep.Known}
	x.t.thorough = os.Getenv("VERIF_TIER") == "thorough"
	if k := os.Getenv("VERIF_KNOWN"); k != "" {
		x.known0 = strings.Split(k, ",")
	}
	if !filepath.IsAbs(x.base) {
		rep.Infra = "no scratch directory"
		return
	}
	hashes := map[string]bool{}
	var lastIn []byte
	var lastErr error
	deadline := start.Add(time.Duration(env("VERIF_BUDGET", 400)) * time.Second)
	failing := false
	// one evaluates a case; it returns an error for a violation
	one := func(in interface{}) (verr error) {
		defer func() {
			if r := recover(); r != nil {
				if i, ok := r.(Infra); ok {
					rep.Infra = i.Error()
					b, _ := json.Marshal(in)
					rep.Infra += "\ncase: " + cut(string(b), 2000)
					panic(infraStop{})
				}
				panic(r)
			}
		}()
		b, e := json.Marshal(in)
		if e != nil {
			infra("%v", e)
		}
		if p.InProc {
			// should the process die of it, this is the case
			if f, e := json.Marshal(replayFile{id, "the process crashed", b}); e != nil || os.WriteFile(out+".cur", f, 0644) != nil {
				infra("%v", e)
			}
		}
		err := evaluate(p, x, in)
		if !failing {
			rep.Evaluations++
			for c := range x.cur {
				x.classes[c]++
			}
			if x.nontriv {
				h := sha256.Sum256(b)
				hs := fmt.Sprintf("%x", h[:8])
				if !hashes[hs] {
					hashes[hs] = true
					if n := len(hashes); len(b) < 6000 && len(rep.Samples) < 3 && n%7 == 1 {
						rep.Samples = append(rep.Samples, b)
					}
				}
			}
		}
		if err != nil {
			failing = true
			lastIn, lastErr = b, err
		}
		return err
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(infraStop); !ok {
				rep.Infra = fmt.Sprintf("panic in the driver: %v", r)
				fmt.Fprintln(os.Stderr, rep.Infra)
				panic(r)
			}
		}
		rep.Execs = x.Execs
		for h := range hashes {
			rep.Hashes = append(rep.Hashes, h)
		}
		sort.Strings(rep.Hashes)
		if lastErr != nil && rep.Infra == "" {
			rep.Violation = lastErr.Error()
			rep.Replay, _ = json.Marshal(replayFile{id, rep.Violation, lastIn})
		}
	}()
	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		b, err := os.ReadFile(rf)
		var f replayFile
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		var in interface{}
		if err == nil {
			in, err = p.decode(f.Case)
		}
		if err != nil {
			rep.Infra = err.Error()
			return
		}
		for i := 0; i < env("VERIF_REPEAT", 1) && lastErr == nil; i++ {
			one(in)
		}
		return
	}
	shard, shards := env("VERIF_SHARD", 0), env("VERIF_SHARDS", 1)
	fixed := p.fixed()
	for i, in := range fixed {
		if i%shards != shard {
			continue
		}
		rep.Fixed++
		if one(in) != nil {
			return
		}
	}
	if env("VERIF_NOGEN", 0) == 1 {
		return
	}
	ok := t.Run("gen", func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			in := p.gen(rt)
			if time.Now().After(deadline) && !failing {
				rep.Skipped++
				return
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(infraStop); ok {
							write()
							os.Exit(0)
						}
						panic(r)
					}
				}()
				if err := one(in); err != nil {
					rt.Fatalf("%v", cut(err.Error(), 4000))
				}
			}()
		})
	})
	if !ok && lastErr == nil && rep.Infra == "" {
		rep.Infra = "the generator failed"
	}
}

type infraStop struct{}
