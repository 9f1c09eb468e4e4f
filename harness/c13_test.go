package index

import (
	"math/rand"
	"slices"
	"strings"
	"testing"
)

func vUnder(p, parent string) bool {
	if p == parent {
		return true
	}
	if parent != "" && strings.HasSuffix(parent, "/") {
		return strings.HasPrefix(p, parent)
	}
	return strings.HasPrefix(p, parent+"/")
}

func vRandPath(r *rand.Rand) string {
	var b []byte
	for n := r.Intn(7); n > 0; n-- {
		b = append(b, "/ab/.\x01 !0\x7f\xc3\xffz/"[r.Intn(14)])
	}
	return string(b)
}

func TestVerifC13(t *testing.T) {
	e := vStart(t)
	r := e.r
	sgn := func(x int) int {
		switch {
		case x < 0:
			return -1
		case x > 0:
			return 1
		}
		return 0
	}
	for e.more() {
		var ps []string
		for i := 0; i < 12; i++ {
			s := vRandPath(r)
			ps = append(ps, s)
			if i < 4 {
				ps = append(ps, s+"/"+vRandPath(r), s+string("./\x01\x02 \xff"[r.Intn(6)])+vRandPath(r))
			}
		}
		for _, a := range ps {
			for _, b := range ps {
				c := sgn(MakePath(a).Compare(MakePath(b)))
				if want := sgn(vPathCmp(a, b)); c != want {
					e.fail("Compare(%q, %q) has sign %d want %d", a, b, c, want)
				}
				if (c == 0) != (a == b) {
					e.fail("Compare(%q, %q) = %d", a, b, c)
				}
				e.count("compares")
				// a path has another as path prefix exactly when it is it or lies beneath it
				if got := MakePath(a).HasPathPrefix(MakePath(b)); got != vUnder(a, b) {
					e.fail("%q HasPathPrefix %q = %v", a, b, got)
				}
				if vUnder(a, b) && c < 0 {
					e.fail("%q is beneath %q but sorts before it", a, b)
				}
			}
		}
		s := slices.Clone(ps)
		slices.SortFunc(s, func(a, b string) int { return MakePath(a).Compare(MakePath(b)) })
		for _, d := range ps {
			if d == "" {
				continue
			}
			// everything beneath d, and beneath it as a zip file, is one contiguous run after d
			for _, in := range []func(string) bool{
				func(p string) bool { return vUnder(p, d) },
				func(p string) bool { return vUnder(p, d) || strings.HasPrefix(p, strings.TrimSuffix(d, "/")+"\x01") },
			} {
				st := 0
				for _, p := range s {
					switch {
					case in(p) && st == 2:
						// bytes that sort before \x02 and are no separator may lie between a directory and what is inside the zip file
						e.fail("sorted %q: what is beneath %q is not contiguous", s, d)
					case in(p):
						st = 1
					case st == 1:
						st = 2
					}
				}
			}
		}
		e.count("sorted_lists")
	}
	e.done()
}
