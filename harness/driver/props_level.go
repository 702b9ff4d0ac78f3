package driver

import (
	"fmt"
	"strings"
	"sync"

	"github.com/xtfly/log4g/api"
	"pgregory.net/rapid"
)

// C24: level names and order, by the API's own functions against tables
// written from the documentation.

type levelCase struct {
	Texts  [][]byte
	Values []int
	Repeat int
	Conc   bool
}

var longNames = []string{"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "CRITICAL", "OFF"}
var shortNames = []string{"ALL", "TAC", "DBG", "INF", "WRN", "ERR", "CRI", "OFF"}
var levelOrder = []api.Level{api.All, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off}

// levelOf is the level a text denotes: ASCII letters in either case.
func levelNamed(s string) api.Level {
	for i, n := range longNames {
		if len(n) != len(s) {
			continue
		}
		same := true
		for j := 0; j < len(n); j++ {
			c := s[j]
			if 'a' <= c && c <= 'z' {
				c -= 'a' - 'A'
			}
			same = same && c == n[j]
		}
		if same {
			return levelOrder[i]
		}
	}
	return api.Uninitialized
}

func genLevelText(t *rapid.T) string {
	base := rapid.SampledFrom(append(append(append([]string{}, longNames...), shortNames...), "", "WARNING", "FATAL", "PANIC", "NOTICE",
		"ERR", "CRIT", "UNINITIALIZED", "NONE", "INFORMATION", "D", "I", "W", "E", "0", "3", "-1", "TRACE,DEBUG")).Draw(t, "base")
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 0, 1, 2: // letter case only
		b := []byte(base)
		for i := range b {
			if rapid.Bool().Draw(t, "lower") {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	case 3: // surroundings
		ws := rapid.SampledFrom([]string{" ", "\t", "\n", "\r", "\x00", "\u00a0", "\ufeff", "\"", "'", ".", ",", "_", "|", "\u200b"})
		if rapid.Bool().Draw(t, "front") {
			return ws.Draw(t, "ws") + base
		}
		return base + ws.Draw(t, "ws")
	case 4: // lookalikes and letters whose cases are special
		r := []rune(base)
		if len(r) == 0 {
			return base
		}
		i := rapid.IntRange(0, len(r)-1).Draw(t, "i")
		alt := map[rune][]rune{'A': {'А', 'Á', 'a', 'ａ'}, 'E': {'Е', 'é', 'ε'}, 'I': {'İ', 'l', '1', 'і'}, 'O': {'0', 'О', 'ο', 'º'}, 'C': {'С', 'ϲ'},
			'F': {'ƒ', 'ﬀ'}, 'T': {'Т', 'ţ'}, 'W': {'Ｗ', 'ʷ'}, 'N': {'ɴ', 'Ν'}, 'R': {'ʀ'}, 'L': {'1', 'ʟ', 'ł'}, 'G': {'ɢ'}, 'D': {'ԁ'}, 'B': {'В', 'ß'}, 'U': {'υ', 'ü'}}
		if a := alt[r[i]]; len(a) > 0 {
			r[i] = a[rapid.IntRange(0, len(a)-1).Draw(t, "alt")]
		} else {
			r[i] = 'X'
		}
		return string(r)
	case 5: // one edit
		if base == "" {
			return "A"
		}
		i := rapid.IntRange(0, len(base)-1).Draw(t, "i")
		c := string(rune(rapid.IntRange('A', 'Z').Draw(t, "c")))
		switch rapid.IntRange(0, 3).Draw(t, "edit") {
		case 0:
			return base[:i] + base[i+1:]
		case 1:
			return base[:i] + c + base[i:]
		case 2:
			return base[:i] + c + base[i+1:]
		}
		return base[:i] + base[i:i+1] + base[i:]
	case 6: // part, or several
		if rapid.Bool().Draw(t, "part") && base != "" {
			return base[:rapid.IntRange(0, len(base)).Draw(t, "n")]
		}
		return base + rapid.SampledFrom([]string{"", " ", "|", "-"}).Draw(t, "sep") + rapid.SampledFrom(longNames).Draw(t, "more")
	case 7:
		// 'ı' upper-cases to 'I' in Unicode, a matter of taste: left out
		return strings.ReplaceAll(rapid.StringN(0, 12, 40).Draw(t, "any"), "ı", "")
	case 8:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "bytes"))
	}
	return base
}

func init() {
	rule := "texts: the level names in every mix of cases, near misses (edits, parts, blanks, lookalikes) and arbitrary strings; values around and far from the eight levels; " +
		"each conversion is repeated, in some cases by several goroutines. Non-trivial: a text which denotes a level and one which does not."
	add(Prop{ID: "C24", Rule: rule, InProc: true}, func(t *rapid.T) levelCase {
		c := levelCase{Repeat: rapid.IntRange(1, 40).Draw(t, "repeat"), Conc: rapid.IntRange(0, 9).Draw(t, "conc") == 0}
		n := rapid.IntRange(1, 12).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.Texts = append(c.Texts, []byte(genLevelText(t)))
		}
		c.Values = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(-3, 12), rapid.Int()), 0, 4).Draw(t, "values")
		return c
	}, checkLevels, func() []levelCase {
		c := levelCase{Repeat: 100}
		for i := range longNames {
			for _, s := range []string{longNames[i], shortNames[i], strings.ToLower(longNames[i]), strings.ToLower(shortNames[i])} {
				c.Texts = append(c.Texts, []byte(s))
			}
			c.Values = append(c.Values, i, i+1)
		}
		c.Texts = append(c.Texts, nil, []byte(" "), []byte("Uninitialized"))
		return []levelCase{c}
	})
}

func checkLevels(x *X, c *levelCase) (err error) {
	good, bad := false, false
	for _, b := range c.Texts {
		s := string(b)
		if levelNamed(s) != api.Uninitialized {
			good = true
		} else {
			bad = true
		}
	}
	x.NonTrivial(good && bad)
	if good {
		x.Class("names a level")
	}
	if bad {
		x.Class("names no level")
	}
	if c.Conc {
		x.Class("several goroutines")
	}
	return inProcess(func() error {
		n := 1
		if c.Conc {
			n = 4
		}
		errs := make([]error, n)
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[g] = fmt.Errorf("panic: %v", r)
					}
				}()
				errs[g] = levels1(c)
			}(g)
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		return nil
	})
}

func levels1(c *levelCase) error {
	for i := 1; i < len(levelOrder); i++ {
		if !(levelOrder[i-1] < levelOrder[i]) {
			return fmt.Errorf("%s (%d) is not below %s (%d)", longNames[i-1], levelOrder[i-1], longNames[i], levelOrder[i])
		}
	}
	for _, l := range levelOrder {
		if l == api.Uninitialized {
			return fmt.Errorf("level %d is also the uninitialized level", l)
		}
	}
	for r := 0; r < c.Repeat; r++ {
		for _, b := range c.Texts {
			s := string(b)
			if g, w := api.LevelFrom(s), levelNamed(s); g != w {
				return fmt.Errorf("conversion %d of %q: level %d, expected %d", r+1, s, g, w)
			}
		}
		for i, l := range levelOrder {
			if l.String() != longNames[i] || l.ShortStr() != shortNames[i] {
				return fmt.Errorf("level %s: names %q and %q", longNames[i], l.String(), l.ShortStr())
			}
			if k := api.LevelFrom(l.String()); k != l {
				return fmt.Errorf("level %s: its name converts to level %d", longNames[i], k)
			}
		}
		for _, v := range c.Values {
			// a value that is no level has no level's name
			l := api.Level(v)
			known := false
			for _, k := range levelOrder {
				known = known || k == l
			}
			if !known {
				if k := levelNamed(l.String()); k != api.Uninitialized {
					return fmt.Errorf("value %d, which is no level, is named %q", v, l.String())
				}
				for _, s := range shortNames {
					if s == l.ShortStr() {
						return fmt.Errorf("value %d, which is no level, has the short name %q", v, s)
					}
				}
			}
		}
	}
	return nil
}
