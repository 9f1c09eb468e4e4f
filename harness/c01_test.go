package index

import (
	"math/rand"
	"strings"
	"testing"
)

func vEvalQuery(q *Query, has map[string]bool) bool {
	switch q.Op {
	case QAll:
		return true
	case QNone:
		return false
	case QAnd:
		for _, t := range q.Trigram {
			if !has[t] {
				return false
			}
		}
		for _, s := range q.Sub {
			if !vEvalQuery(s, has) {
				return false
			}
		}
		return true
	}
	for _, t := range q.Trigram {
		if has[t] {
			return true
		}
	}
	for _, s := range q.Sub {
		if vEvalQuery(s, has) {
			return true
		}
	}
	return false
}

// vDense returns patterns over few letters, rich in exact, prefix and suffix sets.
func vDense(r *rand.Rand, depth int) string {
	lit := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += string("abcde"[r.Intn(2+r.Intn(4))])
		}
		return s
	}
	if depth <= 0 {
		switch r.Intn(9) {
		case 0:
			return []string{"[ab]", "[a-c]", "[b-d]", "[a-e]", "[a-i]", "[ac]", "[^a]"}[r.Intn(7)]
		case 1:
			return []string{".", "a*", ".*", "b+", "c?", "", "^", "$", `\b`, "(?i:ab)", "(?i:k)", "(?i:abc)", "(?i:sk)"}[r.Intn(13)]
		case 2:
			return lit(1) + []string{"*", "+", "?"}[r.Intn(3)]
		}
		return lit(1 + r.Intn(5))
	}
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		s := ""
		for n := r.Intn(3) + 2; n > 0; n-- {
			s += vDense(r, depth-1)
		}
		return s
	case 4, 5, 6:
		var p []string
		for n := r.Intn(4) + 2; n > 0; n-- {
			p = append(p, vDense(r, depth-1))
		}
		return "(" + strings.Join(p, "|") + ")"
	case 7:
		return "(" + vDense(r, depth-1) + ")" + []string{"*", "+", "?", "{2}", "{1,3}", "{0,1}", "{2,}"}[r.Intn(7)]
	}
	return vDense(r, depth-1)
}

func TestVerifC01(t *testing.T) {
	e := vStart(t)
	r := e.r
	for e.more() {
		var pat string
		if r.Intn(4) == 0 {
			pat = vPattern(r, r.Intn(4))
		} else {
			pat = vDense(r, 1+r.Intn(3))
			if r.Intn(10) == 0 {
				pat = "(?i)" + pat
			}
		}
		pat = "(?m)" + pat
		re := vParse(pat)
		if re == nil {
			continue
		}
		q := RegexpQuery(re)
		e.count("patterns")
		if q.Op != QAll {
			e.count("nontrivial_queries")
		}
		for k := 0; k < 12; k++ {
			mid := vSample(r, re)
			if len(mid) > 400 {
				continue
			}
			s := mid
			if r.Intn(2) == 0 {
				s = string(vRune(r)) + s
			}
			if r.Intn(2) == 0 {
				s += string(vRune(r))
			}
			if strings.Contains(s, "\n") || !vLineMatch(re, []byte(s), true, true) {
				continue
			}
			has := map[string]bool{}
			for i := 0; i+3 <= len(s); i++ {
				has[s[i:i+3]] = true
			}
			e.count("matching_texts")
			if !vEvalQuery(q, has) {
				e.fail("pattern %q matches text %q but its query %v excludes the text", pat, s, q)
			}
		}
	}
	e.done()
}
