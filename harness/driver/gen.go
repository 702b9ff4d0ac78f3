package driver

import (
	"fmt"
	"strings"

	"github.com/xtfly/log4g/verif/wire"
	"pgregory.net/rapid"
)

// n draws an integer, smaller ones being simpler.
func n(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }

// flat draws an integer without the bias towards small ones.
func flat(t *rapid.T, lo, hi int) int {
	if hi-lo < 8 {
		return rapid.SampledFrom(seq(lo, hi)).Draw(t, "u")
	}
	return lo + int(rapid.Uint32().Draw(t, "u"))%(hi-lo+1)
}

func seq(lo, hi int) []int {
	r := make([]int, 0, hi-lo+1)
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return r
}

// chance is true in pct percent of the draws, false being simpler.
func chance(t *rapid.T, pct int) bool {
	return rapid.SampledFrom(seq(0, 99)).Draw(t, "p") >= 100-pct
}

func pick[T any](t *rapid.T, l ...T) T { return rapid.SampledFrom(l).Draw(t, "of") }

// subset of l in random order
func subset[T any](t *rapid.T, l []T, lo, hi int) []T {
	if hi > len(l) {
		hi = len(l)
	}
	if lo > hi {
		lo = hi
	}
	k := flat(t, lo, hi)
	p := append([]T(nil), l...)
	for i := 0; i < k; i++ {
		j := flat(t, i, len(p)-1)
		p[i], p[j] = p[j], p[i]
	}
	return p[:k]
}

// mixCase changes the case of letters.
func mixCase(t *rapid.T, s string) string {
	switch flat(t, 0, 3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return s
	case 2:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if flat(t, 0, 1) == 1 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

var namePieces = []string{"a", "b", "c", "ab", "root", "é", "A"}

// names draws distinct logger names that share ancestors.
func names(t *rapid.T, lo, hi int) []string {
	k := flat(t, lo, hi)
	seen := map[string]bool{}
	var r []string
	for i := 0; i < 4*k && len(r) < k; i++ {
		var s string
		if len(r) > 0 && chance(t, 60) {
			s = pick(t, r...) + pick(t, "/", ".", "/", ".", "//", "./") + pick(t, namePieces...)
		} else {
			s = pick(t, namePieces...)
			if s == "root" {
				s = "root" + pick(t, "/", ".", "") + pick(t, "a", "b")
			}
			if chance(t, 5) {
				s = pick(t, "/", ".") + s
			}
			if chance(t, 5) {
				s = s + pick(t, "/", ".")
			}
			if chance(t, 4) {
				s += strings.Repeat(pick(t, "x", "é"), pick(t, 30, 64, 127, 256))
			}
		}
		if chance(t, 4) {
			// not the same name
			if sp := pick(t, " ", "\t", "\u00a0"); chance(t, 50) {
				s += sp
			} else {
				s = sp + s
			}
		}
		if strings.Count(s, "/")+strings.Count(s, ".") > 6 {
			continue
		}
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	if len(r) > 1 && chance(t, 4) {
		// far down
		s := r[0]
		for i := flat(t, 7, 40); i > 0; i-- {
			s += pick(t, "/", ".") + pick(t, "x", "y", "a")
		}
		r[len(r)-1] = s
	}
	return r
}

// getMany looks up many further loggers.
func getMany(t *rapid.T, nm []string) wire.Op {
	return wire.Op{K: "getmany", Name: pick(t, "many", "many/", pick(t, nm...)+"/", pick(t, nm...)), N: pick(t, 20, 70, 150, 300, 600, 1100, 2200)}
}

// ancestors of a name, nearest first, root last.
func ancestors(name string) []string {
	var r []string
	if name == "root" || name == "" {
		return nil
	}
	for i := len(name) - 1; i > 0; i-- {
		if (name[i] == '/' || name[i] == '.') && name[:i] != "root" {
			r = append(r, name[:i])
		}
	}
	return append(r, "root")
}

func levelText(t *rapid.T, lvl int) string { return mixCase(t, wire.LevelNames[lvl]) }

// method draws a logging method and, for Printf, a level.
func method(t *rapid.T) (string, int) {
	m := pick(t, wire.Methods...)
	if m == "Printf" {
		return m, flat(t, wire.Trace, wire.Critical)
	}
	return m, 0
}

// methodAt draws a method for a level.
func methodAt(t *rapid.T, lvl int) (string, int) {
	b := wire.LevelNames[lvl]
	b = b[:1] + strings.ToLower(b[1:])
	switch flat(t, 0, 3) {
	case 0:
		return b + "f", 0
	case 1:
		return "Printf", lvl
	}
	return b, 0
}

// token of message i; no token is part of another.
func token(i int) string { return fmt.Sprintf("<m%d>", i) }

// logOp logs token i.
func logTok(t *rapid.T, slot, i int) wire.Op {
	m, lvl := method(t)
	o := wire.Op{K: "log", L: slot, M: m, Lvl: lvl}
	if strings.HasSuffix(m, "f") {
		o.Fmt = token(i)
	} else {
		o.Args = []wire.Val{{T: "s", S: token(i)}}
	}
	return o
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// mkWriter makes a writer with fields; there are none without a context.
func mkWriter(l, w int, how string, fs []wire.Field) wire.Op {
	if how == "nil" {
		fs = nil
	}
	return wire.Op{K: "mkwriter", L: l, W: w, M: how, Fields: fs}
}
