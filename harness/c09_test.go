package regexp

import (
	"fmt"
	"regexp/syntax"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

// vDenotes reports whether the single-character pattern denotes r.
func vDenotes(re *syntax.Regexp, r rune) bool {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune) == 1 && (re.Rune[0] == r || re.Flags&syntax.FoldCase != 0 && vFold(re.Rune[0], r))
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i] <= r && r <= re.Rune[i+1] {
				return true
			}
		}
		return false
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return true
	case syntax.OpCapture:
		return vDenotes(re.Sub[0], r)
	}
	return false
}

func TestVerifC09(t *testing.T) {
	e := vStart(t)
	r := e.r
	bounds := []rune{0, 1, 9, 0x41, 0x5a, 0x61, 0x6b, 0x73, 0x7a, 0x7e, 0x7f, 0x80, 0x81, 0xb5, 0xbf, 0xc0, 0xe0, 0xff, 0x17f, 0x1c4, 0x1c5, 0x1c6, 0x345, 0x3b9, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x1e9e, 0x1fbe, 0x212a, 0x212b,
		0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x10400, 0x10428, 0x1044f, 0x118a0, 0x118c0, 0x16e40, 0x16e60, 0x1e900, 0x1e922, 0x1e943, 0x1e944, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff}
	rb := func() rune {
		switch r.Intn(4) {
		case 0:
			return rune(r.Intn(0x200))
		case 1:
			return rune(r.Intn(0x110000))
		}
		x := bounds[r.Intn(len(bounds))] + rune(r.Intn(3)-1)
		if x < 0 {
			x = 0
		}
		if x > unicode.MaxRune {
			x = unicode.MaxRune
		}
		return x
	}
	rng := func() string {
		lo := rb()
		hi := lo
		switch r.Intn(4) {
		case 0:
			hi = lo + rune(r.Intn(200))
		case 1:
			hi = rb()
		case 2:
			hi = lo + rune(r.Intn(10000))
		}
		if hi > unicode.MaxRune {
			hi = unicode.MaxRune
		}
		if lo > hi {
			lo, hi = hi, lo
		}
		return fmt.Sprintf(`\x{%x}-\x{%x}`, lo, hi)
	}
	// The facts of unicode.SimpleFold the contracts rest on.
	for c := rune(0); c <= unicode.MaxRune; c++ {
		n := 0
		for f := unicode.SimpleFold(c); ; f = unicode.SimpleFold(f) {
			n++
			if f < 0 || f > unicode.MaxRune || n > 4 || f != c && (c < 0x41 || c > 0x1e943 || f < 0x41 || f > 0x1e943) {
				e.fail("assumption about unicode.SimpleFold fails at %U", c)
			}
			if f == c {
				break
			}
		}
		w := c
		switch {
		case c >= 128:
			continue
		case 'A' <= c && c <= 'Z':
			w = c + 32
		case c == 'k':
			w = 0x212A
		case c == 's':
			w = 0x17F
		case 'a' <= c && c <= 'z':
			w = c - 32
		}
		if unicode.SimpleFold(c) != w {
			e.fail("assumption about unicode.SimpleFold fails at %U", c)
		}
	}
	if unicode.SimpleFold(0x212A) != 'K' || unicode.SimpleFold(0x17F) != 'S' {
		e.fail("assumption about unicode.SimpleFold fails")
	}
	// The shape of rune instructions regexp/syntax makes, which the contracts rest on.
	shape := func(pat string) {
		p, err := syntax.Parse(pat, syntax.Perl)
		if err != nil {
			return
		}
		prog, err := syntax.Compile(p.Simplify())
		if err != nil {
			return
		}
		for _, i := range prog.Inst {
			r, fold := i.Rune, syntax.Flags(i.Arg)&syntax.FoldCase != 0
			bad := false
			switch i.Op {
			case syntax.InstRune1:
				bad = fold || !(len(r) == 1 || len(r) == 2 && r[0] == r[1])
			case syntax.InstRune:
				if len(r) == 1 {
					bad = fold && 'a' <= r[0] && r[0] <= 'z'
				} else {
					bad = fold || len(r)%2 != 0
					for j := 1; j < len(r); j++ {
						bad = bad || r[j] < r[j-1] || j%2 == 0 && r[j] == r[j-1]
					}
				}
			case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			default:
				continue
			}
			for _, x := range r {
				bad = bad || x < 0 || x > unicode.MaxRune
			}
			if bad || int(i.Out) >= len(prog.Inst) {
				e.fail("assumption about the instructions of %q fails: %v", pat, i)
			}
			e.count("instructions")
		}
	}
	first := []string{".", "(?s:.)", `\pL`, `\PL`, `\w`, `\W`, "(?i)k", "(?i)s", "(?i)K", "(?i)[^k]", `(?i)\pL`, `[Aa]`, `[éÉ]`, `[^\x00-\x{10FFFF}]`, `[\x{d800}-\x{dfff}]`, `(?i)\x{1e922}`, `(?i)[\x{10400}-\x{1e943}]`, `[À-ÿ]`, `(?i)[à-ÿ]`, `(?i)ǆ`, `(?i)[\x{0}-\x{10ffff}]`}
	// one character pattern
	single := func() string {
		var pat string
		switch r.Intn(5) {
		case 0:
			return fmt.Sprintf(`\x{%x}`, rb())
		case 1:
			a := rb()
			return fmt.Sprintf(`[\x{%x}\x{%x}]`, a, unicode.SimpleFold(a))
		case 2:
			return first[r.Intn(len(first))]
		}
		pat = "["
		if r.Intn(4) == 0 {
			pat += "^"
		}
		for n := r.Intn(3) + 1; n > 0; n-- {
			pat += rng()
		}
		return pat + "]"
	}
	pickRune := func(one *syntax.Regexp) rune {
		if len(one.Rune) > 0 && r.Intn(5) > 0 {
			j := r.Intn(len(one.Rune))
			if one.Op == syntax.OpCharClass && r.Intn(2) == 0 {
				j &^= 1
				return one.Rune[j] + rune(r.Intn(int(one.Rune[j+1]-one.Rune[j])+1))
			}
			return one.Rune[j] + rune(r.Intn(3)/2)
		}
		return rb()
	}
	// Several classes in one program: each keeps its own meaning.
	seq := func() {
		n := 2 + r.Intn(3)
		full := "(?m)^"
		var ones []*syntax.Regexp
		var pats []string
		for len(ones) < n {
			p := single()
			if len(pats) > 0 && r.Intn(3) == 0 {
				p = pats[r.Intn(len(pats))]
			}
			one := vParse(p)
			if one == nil {
				continue
			}
			ones = append(ones, one)
			pats = append(pats, p)
			full += "(?:" + p + ")"
		}
		full += "$"
		re, err := Compile(full)
		if err != nil {
			e.fail("pattern %q does not compile: %v", full, err)
		}
		for t := 0; t < 60; t++ {
			var s []byte
			want, skip := true, false
			m := n
			switch r.Intn(5) {
			case 0:
				m = 1 + r.Intn(n+1)
			}
			for j := 0; j < m; j++ {
				c := pickRune(ones[min(j, n-1)])
				if c == '\n' || c < 0 || c > unicode.MaxRune || 0xd800 <= c && c <= 0xdfff {
					skip = true
					break
				}
				s = utf8.AppendRune(s, c)
				want = want && j < n && vDenotes(ones[j], c)
			}
			if skip {
				continue
			}
			want = want && m == n
			if got := re.Match(s, true, true) >= 0; got != want {
				e.fail("pattern %q text %q: matches=%v want %v", full, s, got, want)
			}
			e.count("sequences")
		}
	}
	for k := 0; e.more(); k++ {
		for j := 0; j < 40; j++ {
			seq()
		}
		var pat string
		if k < len(first) {
			pat = first[k]
		} else {
			switch r.Intn(5) {
			case 0:
				pat = fmt.Sprintf(`\x{%x}`, rb())
			case 1:
				a := rb()
				pat = fmt.Sprintf(`[\x{%x}\x{%x}]`, a, unicode.SimpleFold(a))
			default:
				pat = "["
				if r.Intn(4) == 0 {
					pat += "^"
				}
				for n := r.Intn(4) + 1; n > 0; n-- {
					pat += rng()
				}
				pat += "]"
			}
			if r.Intn(2) == 0 {
				pat = "(?i)" + pat
			}
		}
		shape(pat)
		one := vParse(pat)
		if one == nil {
			continue
		}
		full := "(?m)^(?:" + pat + ")$"
		re, err := Compile(full)
		if err != nil {
			e.fail("pattern %q does not compile: %v", full, err)
		}
		e.count("classes")
		var buf [4]byte
		step := rune(1)
		if k%8 != 0 && k >= len(first) {
			step = 7
		}
		ranges := one.Rune
		try := func(c rune) {
			if c == '\n' || c < 0 || c > unicode.MaxRune || 0xd800 <= c && c <= 0xdfff {
				return
			}
			n := utf8.EncodeRune(buf[:], c)
			got := re.Match(buf[:n], true, true) >= 0
			if want := vDenotes(one, c); got != want {
				e.fail("pattern %q code point %U: matches=%v want %v", pat, c, got, want)
			}
			e.count("codepoints")
		}
		for c := rune(r.Intn(int(step))); c <= unicode.MaxRune; c += step {
			if c == 0x3000 && step > 1 {
				step = 31
			}
			try(c)
		}
		for _, b := range ranges {
			for d := rune(-2); d <= 2; d++ {
				try(b + d)
			}
		}
		// Byte strings that are not the encoding of one code point never match.
		for n := 0; n < 3000; n++ {
			var s []byte
			switch r.Intn(4) {
			case 0: // random lead and continuation bytes
				s = []byte{byte(0x80 + r.Intn(128))}
				for j := r.Intn(4); j > 0; j-- {
					s = append(s, byte(0x80+r.Intn(64)))
				}
			case 1: // overlong or surrogate
				c := rune(r.Intn(0x110000))
				if r.Intn(2) == 0 {
					c = rune(0xd800 + r.Intn(0x800))
					s = []byte{0xe0 | byte(c>>12), 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
				} else if c < 0x800 || r.Intn(2) == 0 {
					c &= 0x7ff
					s = []byte{0xe0, 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
				} else {
					c &= 0xffff
					s = []byte{0xf0, 0x80 | byte(c>>12)&0x3f, 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
				}
			case 2: // truncated or damaged encoding
				m := utf8.EncodeRune(buf[:], rb())
				s = append(s, buf[:m]...)
				if len(s) > 1 && r.Intn(2) == 0 {
					s = s[:len(s)-1]
				} else {
					s[r.Intn(len(s))] ^= byte(1 << r.Intn(8))
				}
			case 3:
				for j := r.Intn(5); j > 0; j-- {
					s = append(s, byte(r.Intn(256)))
				}
			}
			if strings.ContainsRune(string(s), '\n') {
				continue
			}
			want := false
			if c, w := utf8.DecodeRune(s); w == len(s) && w > 0 && !(c == utf8.RuneError && w == 1) {
				want = vDenotes(one, c)
			}
			if got := re.Match(s, true, true) >= 0; got != want {
				e.fail("pattern %q bytes %x: matches=%v want %v", pat, s, got, want)
			}
			e.count("bytestrings")
		}
	}
	e.done()
}
