package regexp

import (
	"bytes"
	"regexp/syntax"
	"strings"
	"testing"
)

// vFirst is the specification of Match: the offset just past the first line containing a match.
func vFirst(re *syntax.Regexp, text []byte, bot, eot bool) int {
	off := 0
	ls := bytes.Split(text, []byte("\n"))
	for i, l := range ls {
		if vLineMatch(re, l, bot && i == 0, eot && i == len(ls)-1) {
			return off + len(l)
		}
		off += len(l) + 1
	}
	return -1
}

func TestVerifC10(t *testing.T) {
	e := vStart(t)
	r := e.r
	check := func(re, re2 *Regexp, pat string, hist []string, text []byte, bot, eot bool) {
		want := vFirst(re.Syntax, text, bot, eot)
		got := re.Match(text, bot, eot)
		got2 := re2.MatchString(string(text), bot, eot)
		if got != want || got2 != want {
			if len(hist) > 3 {
				hist = hist[len(hist)-3:]
			}
			e.fail("pattern %q text %q beginText=%v endText=%v: Match=%d MatchString=%d want %d (after %q)", pat, text, bot, eot, got, got2, want, hist)
		}
		e.count("matches")
		if want >= 0 {
			e.count("hits")
		}
	}
	for e.more() {
		pat := vPattern(r, r.Intn(4))
		if r.Intn(5) == 0 {
			pat = []string{`\A`, `^`, `(?m:^)`, `\A.*`, `(?:\A|b)`}[r.Intn(5)] + pat
		}
		if r.Intn(8) == 0 {
			pat += []string{`\z`, `$`, `(?m:$)`, `(?:\z|b)`}[r.Intn(4)]
		}
		switch r.Intn(5) {
		case 0:
			pat = "(?m)" + pat
		case 1:
			pat = "(?i)(?m)" + pat
		case 2:
			pat = "(?s)" + pat
		}
		re, err := Compile(pat)
		if err != nil {
			continue
		}
		re2 := re // sometimes the string matcher builds its own states
		if r.Intn(2) == 0 {
			re2, _ = Compile(pat)
		}
		syn := vParse(pat)
		e.count("patterns")
		var hist []string
		for k := 0; k < 25; k++ {
			var ls []string
			for n := r.Intn(4); n >= 0; n-- {
				ls = append(ls, vLineText(r, syn, r.Intn(3) == 0))
			}
			text := strings.Join(ls, "\n")
			if r.Intn(3) == 0 {
				text += "\n"
			}
			check(re, re2, pat, hist, []byte(text), r.Intn(2) == 0, r.Intn(2) == 0)
			hist = append(hist, text)
		}
	}
	e.done()
}
