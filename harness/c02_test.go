package index

import (
	"fmt"
	"math/rand"
	"os"
	"slices"
	"testing"
)

func vRandQuery(r *rand.Rand, depth int, tris []string) *Query {
	q := &Query{}
	if depth <= 0 || r.Intn(8) == 0 {
		switch r.Intn(9) {
		case 0:
			q.Op = QAll
			return q
		case 1:
			q.Op = QNone
			return q
		}
	}
	q.Op = []QueryOp{QAnd, QOr}[r.Intn(2)]
	n := r.Intn(4)
	for ; n > 0; n-- {
		q.Trigram = append(q.Trigram, tris[r.Intn(len(tris))])
	}
	if depth > 0 {
		for n = r.Intn(4); n > 0; n-- {
			q.Sub = append(q.Sub, vRandQuery(r, depth-1, tris))
		}
	}
	if len(q.Trigram)+len(q.Sub) == 0 {
		q.Trigram = []string{tris[r.Intn(len(tris))]}
	}
	return q
}

func vEval(q *Query, id int, files []vFile, sets []map[uint32]bool) bool {
	tri := func(s string) bool { return sets[id][uint32(s[0])<<16|uint32(s[1])<<8|uint32(s[2])] }
	switch q.Op {
	case QAll:
		return true
	case QNone:
		return false
	case QAnd:
		for _, s := range q.Trigram {
			if !tri(s) {
				return false
			}
		}
		for _, s := range q.Sub {
			if !vEval(s, id, files, sets) {
				return false
			}
		}
		return true
	}
	for _, s := range q.Trigram {
		if tri(s) {
			return true
		}
	}
	for _, s := range q.Sub {
		if vEval(s, id, files, sets) {
			return true
		}
	}
	return false
}

func TestVerifC02(t *testing.T) {
	e := vStart(t)
	r := e.r
	dir := vTmp(t)
	for k := 0; e.more(); k++ {
		var files []vFile
		n := r.Intn(40)
		if k%7 == 0 {
			n = r.Intn(600)
		}
		letters := "abcd"[:2+r.Intn(3)]
		for i := 0; i < n; i++ {
			b := make([]byte, r.Intn(14))
			for j := range b {
				b[j] = letters[r.Intn(len(letters))]
			}
			files = append(files, vFile{fmt.Sprintf("/f%05d", i), b})
		}
		sets := make([]map[uint32]bool, n)
		for i := range files {
			sets[i] = vTris(files[i].data)
		}
		var tris []string
		for i := 0; i < 12; i++ {
			tris = append(tris, string([]byte{"abcd"[r.Intn(4)], "abcd"[r.Intn(4)], "abcd"[r.Intn(4)]}))
		}
		tris = append(tris, "\x01\x01\x01", "~~~", "zzz")
		f := fmt.Sprintf("%s/ix%d", dir, k)
		version := 2
		if r.Intn(4) == 0 {
			version = 1
		}
		vBuild(f, []string{"/"}, files, version, 0, nil)
		ix := Open(f)
		e.count("indexes")
		for j := 0; j < 400 && e.more(); j++ {
			q := vRandQuery(r, r.Intn(4), tris)
			var want []int
			for i := range files {
				if vEval(q, i, files, sets) {
					want = append(want, i)
				}
			}
			var got []int
			func() {
				defer func() {
					if x := recover(); x != nil {
						e.fail("version %d files %s query %v panics: %v", version, vDescribe(files), q, x)
					}
				}()
				got = ix.PostingQuery(q)
			}()
			if !slices.Equal(got, want) {
				e.fail("version %d files %s query %v gives %v want %v", version, vDescribe(files), q, got, want)
			}
			e.count("queries")
			if len(want) > 0 && len(want) < n {
				e.count("queries_nontrivial")
			}
			// one trigram's list intersected and united with a list
			s := tris[r.Intn(len(tris))]
			tri := uint32(s[0])<<16 | uint32(s[1])<<8 | uint32(s[2])
			var list, and, or []int
			for i := range files {
				in := r.Intn(2) == 0
				if in {
					list = append(list, i)
					if sets[i][tri] {
						and = append(and, i)
					}
				}
				if in || sets[i][tri] {
					or = append(or, i)
				}
			}
			if got := ix.PostingOr(slices.Clone(list), tri); !slices.Equal(got, or) {
				e.fail("version %d files %s PostingOr(%v, %q)=%v want %v", version, vDescribe(files), list, s, got, or)
			}
			if got := ix.PostingAnd(slices.Clone(list), tri); !slices.Equal(got, and) {
				e.fail("version %d files %s PostingAnd(%v, %q)=%v want %v", version, vDescribe(files), list, s, got, and)
			}
			var pl []int
			for i := range files {
				if sets[i][tri] {
					pl = append(pl, i)
				}
			}
			if got := ix.PostingList(tri); !slices.Equal(got, pl) {
				e.fail("version %d files %s PostingList(%q)=%v want %v", version, vDescribe(files), s, got, pl)
			}
		}
		vClose(ix)
		os.Remove(f)
	}
	e.done()
}
