package index

import (
	"fmt"
	"os"
	"slices"
	"strings"
	"testing"
)

func TestVerifC05(t *testing.T) {
	e := vStart(t)
	r := e.r
	dir := vTmp(t)
	old := writeVersion
	defer func() { writeVersion = old }()
	for k := 0; e.more(); k++ {
		version := 1 + r.Intn(2)
		n := []int{0, 1, 15, 16, 17, 31, 32, 33, 48, r.Intn(100), r.Intn(20)}[r.Intn(11)]
		names := vRandNames(r, n, 1+r.Intn(4))
		if r.Intn(20) == 0 && len(names) > 0 { // longer than any buffer
			i := r.Intn(len(names))
			long := strings.Repeat("x", 255<<10+r.Intn(4<<10))
			names[i] += "/" + long
			if r.Intn(2) == 0 && i+1 < len(names) {
				names = slices.Insert(names, i+1, names[i]+"y")
			}
			slices.SortFunc(names, vPathCmp)
		}
		// the path coder alone, with every grouping, in any order (version 2 codes any list)
		sorted := names
		if version == 2 && r.Intn(2) == 0 {
			names = slices.Clone(names)
			for j := r.Intn(4); j > 0 && len(names) > 0; j-- {
				x := names[r.Intn(len(names))]
				if len(x) > 1000 {
					continue
				}
				switch r.Intn(4) {
				case 0:
					x = x[:1+r.Intn(len(x))]
				case 1:
					x += "/z"
				}
				at := r.Intn(len(names) + 1)
				names = slices.Insert(names, at, x)
			}
			if r.Intn(2) == 0 {
				r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			}
		}
		writeVersion = version
		group := []int{0, 1, 2, 16, 5}[r.Intn(5)]
		data := bufCreate("")
		pre := r.Intn(3)
		for i := 0; i < pre; i++ {
			data.WriteByte('!')
		}
		w := NewPathWriter(data, nil, version, group)
		for _, s := range names {
			w.Write(MakePath(s))
		}
		if version == 1 {
			w.Write(MakePath(""))
		}
		if version == 2 && w.Count() != len(names) {
			e.fail("version %d: Count()=%d after writing %q", version, w.Count(), names)
		}
		data.Flush()
		b, _ := os.ReadFile(data.name)
		data.file.Close()
		os.Remove(data.name)
		limit := len(names)
		if version == 1 {
			limit = -1
		}
		var got []string
		for p := range NewPathReader(version, b[pre:], limit).All() {
			got = append(got, p.String())
		}
		if !slices.Equal(got, names) {
			e.fail("version %d group %d: wrote paths %.2000q read %.2000q", version, group, names, got)
		}
		e.count("path_lists")
		names = sorted
		// whole indexes
		var files []vFile
		for _, s := range names {
			files = append(files, vFile{s, []byte("a\n")})
		}
		var clean []vFile
		for _, f := range files {
			if !strings.Contains(f.name, "\x01") {
				clean = append(clean, f)
			}
		}
		roots := vRandNames(r, r.Intn(4), 2)
		roots = slices.DeleteFunc(roots, func(s string) bool { return strings.Contains(s, "\x01") })
		f := fmt.Sprintf("%s/ix%d", dir, k)
		vBuild(f, roots, clean, version, 0, nil)
		ix := Open(f)
		func() {
			defer func() {
				if x := recover(); x != nil {
					e.fail("version %d roots %q files %s: panic %v", version, roots, vDescribe(clean), x)
				}
			}()
			if s := vVerify(ix, roots, clean, r, 5); s != "" {
				e.fail("version %d roots %q files %s: %.2000s", version, roots, vDescribe(clean), s)
			}
			// every starting point and every length
			if len(clean) <= 40 {
				for lo := range clean {
					for hi := lo + 1; hi <= len(clean); hi++ {
						i := lo
						for p := range ix.Names(lo, hi) {
							if i >= hi || p.String() != clean[i].name {
								e.fail("version %d files %s: Names(%d,%d) item %d is %q", version, vDescribe(clean), lo, hi, i-lo, p)
							}
							i++
						}
						if i != hi {
							e.fail("version %d files %s: Names(%d,%d) yields %d names", version, vDescribe(clean), lo, hi, i-lo)
						}
					}
				}
			}
		}()
		vClose(ix)
		os.Remove(f)
		e.count("indexes")
	}
	e.done()
}
