package index

import (
	"fmt"
	"os"
	"slices"
	"testing"
)

func TestVerifC07(t *testing.T) {
	e := vStart(t)
	r := e.r
	dir := vTmp(t)
	for k := 0; e.more(); k++ {
		// the sort alone: input ordered by file number
		n := r.Intn(300)
		if k%40 == 0 {
			n = r.Intn(20000)
		}
		post := make([]postEntry, 0, n)
		id := 0
		for i := 0; i < n; i++ {
			id += r.Intn(2)
			var tri uint32
			switch r.Intn(3) {
			case 0:
				tri = uint32(r.Intn(1<<24 - 1))
			case 1:
				tri = uint32(r.Intn(4))<<12 | uint32(r.Intn(3))
			case 2:
				tri = []uint32{0, 1, 0xfff, 0x1000, 0xfff000, 0xfffffe, 0x7ff800, 0x800000}[r.Intn(8)]
			}
			pid := id
			if r.Intn(2) == 0 {
				pid += 1 << 33
			}
			post = append(post, makePostEntry(tri, pid))
		}
		// file numbers must be non-decreasing
		slices.SortStableFunc(post, func(a, b postEntry) int { return a.fileid() - b.fileid() })
		post = slices.Compact(post)
		want := slices.Clone(post)
		slices.SortStableFunc(want, func(a, b postEntry) int { return int(a.trigram()) - int(b.trigram()) })
		in := slices.Clone(post)
		sortPost(post)
		if !slices.Equal(post, want) {
			e.fail("sortPost(%x) = %x want %x", in[:min(len(in), 40)], post[:min(len(post), 40)], want[:min(len(want), 40)])
		}
		e.count("sorts")
		// the merge of sorted runs alone
		var h postHeap
		var all []postEntry
		for c := r.Intn(9); c >= 0; c-- {
			run := make([]postEntry, r.Intn(30))
			for i := range run {
				run[i] = makePostEntry(uint32(r.Intn(40)), r.Intn(50))
			}
			slices.Sort(run)
			run = slices.Compact(run)
			all = append(all, run...)
			h.addMem(run)
		}
		slices.Sort(all)
		var got []postEntry
		for !h.empty() && len(got) <= len(all) {
			got = append(got, h.next())
		}
		if !slices.Equal(got, all) {
			e.fail("merged runs give %x want %x", got, all)
		}
		if x := h.next(); x.trigram() != invalidTrigram {
			e.fail("empty heap gives %x", x)
		}
		e.count("heaps")
		if k%4 == 0 {
			// whole indexes, with the in-memory buffer flushed often
			names := vRandNames(r, r.Intn(60), 2)
			var files []vFile
			for _, s := range names {
				files = append(files, vFile{s, vText(r)})
			}
			files = slices.DeleteFunc(files, func(f vFile) bool { return !isValidName(f.name) })
			cap := []int{0, 1, 2, 5, 20, 300}[r.Intn(6)]
			version := 2
			if r.Intn(4) == 0 {
				version = 1
			}
			total := 0
			for _, f := range files {
				total += len(f.data)
			}
			if cap > 0 && total/cap > 500 {
				cap = total/500 + 1
			}
			f := fmt.Sprintf("%s/ix%d", dir, k)
			func() {
				defer func() {
					if x := recover(); x != nil {
						e.fail("version %d buffer %d files %s: panic %v", version, cap, vDescribe(files), x)
					}
				}()
				vBuild(f, nil, files, version, cap, r)
				ix := Open(f)
				if s := vVerify(ix, nil, files, r, 300); s != "" {
					e.fail("version %d buffer %d files %s: %s", version, cap, vDescribe(files), s)
				}
				vClose(ix)
			}()
			os.Remove(f)
			e.count("indexes")
		}
	}
	e.done()
}
