package index

import (
	"fmt"
	"math/rand"
	"os"
	"slices"
	"strings"
	"testing"
)

// vWithin reports whether name is root, lies beneath it, or is inside it as a zip file.
func vWithin(name, root string) bool {
	return vUnder8(name, root) || strings.HasPrefix(name, strings.TrimSuffix(root, "/")+"\x01")
}

func vUnder8(p, parent string) bool {
	if strings.HasSuffix(parent, "/") {
		return strings.HasPrefix(p, parent) || p == parent
	}
	return p == parent || strings.HasPrefix(p, parent+"/")
}

type vState struct {
	roots []string
	files []vFile
}

// vGenState makes an index content: every file lies within a root, no root within another.
func vGenState(r *rand.Rand, pool []string) vState {
	var s vState
	cand := map[string]bool{}
	for n := r.Intn(4); n >= 0; n-- {
		p := pool[r.Intn(len(pool))]
		if i := strings.Index(p, "\x01"); i >= 0 {
			p = p[:i]
		}
		for k := r.Intn(3); k > 0; k-- {
			if i := strings.LastIndex(p, "/"); i > 0 {
				p = p[:i]
			}
		}
		if r.Intn(25) == 0 {
			p = "/"
		}
		cand[p] = true
	}
	var roots []string
	for p := range cand {
		roots = append(roots, p)
	}
	slices.SortFunc(roots, vPathCmp)
	for _, p := range roots {
		if len(s.roots) == 0 || !vUnder8(p, s.roots[len(s.roots)-1]) {
			s.roots = append(s.roots, p)
		}
	}
	for _, n := range pool {
		in := false
		for _, p := range s.roots {
			in = in || vWithin(n, p)
		}
		if in && r.Intn(4) > 0 {
			s.files = append(s.files, vFile{n, vText(r)})
		}
	}
	return s
}

func vMerged(a, b vState) vState {
	var m vState
	all := append(slices.Clone(a.roots), b.roots...)
	slices.SortFunc(all, vPathCmp)
	for _, p := range all {
		if len(m.roots) == 0 || !vUnder8(p, m.roots[len(m.roots)-1]) {
			m.roots = append(m.roots, p)
		}
	}
	for _, f := range a.files {
		hid := false
		for _, p := range b.roots {
			hid = hid || vWithin(f.name, p)
		}
		if !hid {
			m.files = append(m.files, f)
		}
	}
	m.files = append(m.files, b.files...)
	vSortFiles(m.files)
	return m
}

func TestVerifC08(t *testing.T) {
	e := vStart(t)
	r := e.r
	dir := vTmp(t)
	old := writeVersion
	defer func() { writeVersion = old }()
	// vBuild goes through Add, which rejects zip member names; write those names directly
	build := func(out string, s vState, version int) {
		writeVersion = version
		ix := Create(out)
		for _, p := range s.roots {
			ix.AddRoots([]Path{MakePath(p)})
		}
		for _, f := range s.files {
			ix.add(f.name, &vReader{f.data, r, 0})
		}
		ix.Flush()
		for _, b := range []*Buffer{ix.nameData, ix.nameIndex, ix.postFile, ix.postIndex, ix.main} {
			b.file.Close()
		}
		writeVersion = 2
	}
	for k := 0; e.more(); k++ {
		pool := vRandNames(r, 1+r.Intn(40), 1+r.Intn(3))
		cur := vGenState(r, pool)
		file := fmt.Sprintf("%s/m%d_0", dir, k)
		v0 := 2
		if r.Intn(6) == 0 {
			v0 = 1
		}
		build(file, cur, v0)
		hist := fmt.Sprintf("v%d roots %q files %s", v0, cur.roots, vDescribe(cur.files))
		for step := 1; step <= 1+r.Intn(5); step++ {
			nw := vGenState(r, pool)
			if r.Intn(8) == 0 {
				nw.files = nil // the directory is empty now
			}
			v := 2
			if r.Intn(8) == 0 {
				v = 1
			}
			src := fmt.Sprintf("%s/s%d_%d", dir, k, step)
			dst := fmt.Sprintf("%s/m%d_%d", dir, k, step)
			build(src, nw, v)
			hist += fmt.Sprintf(" MERGE v%d roots %q files %s", v, nw.roots, vDescribe(nw.files))
			before1, _ := os.ReadFile(file)
			before2, _ := os.ReadFile(src)
			want := vMerged(cur, nw)
			func() {
				defer func() {
					if x := recover(); x != nil {
						e.fail("history %s: panic %v", hist, x)
					}
				}()
				Merge(dst, file, src)
				ix := Open(dst)
				if s := vVerify(ix, want.roots, want.files, r, 300); s != "" {
					e.fail("history %s: %.2000s", hist, s)
				}
				vClose(ix)
			}()
			after1, _ := os.ReadFile(file)
			after2, _ := os.ReadFile(src)
			if string(before1) != string(after1) || string(before2) != string(after2) {
				e.fail("history %s: merging changed one of its sources", hist)
			}
			os.Remove(file)
			os.Remove(src)
			file, cur = dst, want
			e.count("merges")
		}
		os.Remove(file)
		e.count("histories")
	}
	e.done()
}
