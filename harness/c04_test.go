package index

import (
	"encoding/binary"
	"fmt"
	"os"
	"slices"
	"testing"
)

// Writes posting lists directly through the posting writer, then looks all of them up.
func TestVerifC04(t *testing.T) {
	e := vStart(t)
	r := e.r
	dir := vTmp(t)
	old := writeVersion
	defer func() { writeVersion = old }()
	for k := 0; e.more(); k++ {
		version := 2
		if r.Intn(4) == 0 {
			version = 1
		}
		writeVersion = version
		n := []int{0, 1, 2, 30, 60, 200, 1000, 5000}[r.Intn(8)]
		if n > 2 {
			n += r.Intn(n)
		}
		set := map[uint32]bool{}
		for len(set) < n {
			switch r.Intn(3) {
			case 0:
				set[uint32(r.Intn(1<<24-2)+1)] = true
			case 1:
				set[uint32(r.Intn(2*n+10)+1)] = true
			case 2:
				set[uint32(r.Intn(250)+1)<<16|uint32(r.Intn(3))<<8] = true
			}
		}
		var tris []uint32
		for t := range set {
			tris = append(tris, t)
		}
		slices.Sort(tris)
		lists := map[uint32][]int{}
		out := bufCreate("")
		for p := r.Intn(40); p > 0; p-- {
			out.WriteByte(1) // posting data need not start at offset 0
		}
		pix := bufCreate("")
		postData := out.Offset()
		var w postDataWriter
		w.init(out, pix)
		maxLen := []int{1, 3, 130, 400}[r.Intn(4)]
		for _, t := range tris {
			w.trigram(t)
			id := -1
			var l []int
			for m := r.Intn(maxLen) + 1; m > 0; m-- {
				id += 1 + r.Intn([]int{1, 2, 40, 100000}[r.Intn(4)])
				l = append(l, id)
				w.fileid(id)
			}
			lists[t] = l
			w.endTrigram()
		}
		if r.Intn(2) == 0 || version == 1 {
			w.trigram(invalidTrigram)
			w.endTrigram()
		}
		w.flush()
		out.Align(16)
		postIndex := out.Offset()
		copyFile(out, pix)
		end := out.Offset()
		out.Flush()
		f := fmt.Sprintf("%s/d%d", dir, k)
		data, err := os.ReadFile(out.name)
		if err != nil {
			t.Fatal(err)
		}
		_ = f
		ix := &Index{name: "test", data: mmapData{nil, data}, version: version, postData: postData, postIndex: postIndex, nameIndex: postIndex, numPost: w.numTrigram}
		if version == 2 {
			ix.numPostBlock = (end - postIndex) / postBlockSize
		} else {
			ix.numPost = (end - postIndex) / postIndexEntrySizeV1
		}
		for _, b := range []*Buffer{out, pix} {
			b.file.Close()
			os.Remove(b.name)
		}
		desc := fmt.Sprintf("version %d, %d trigrams, first %x, list lengths up to %d", version, len(tris), tris[:min(len(tris), 40)], maxLen)
		look := func(t uint32) {
			defer func() {
				if x := recover(); x != nil {
					e.fail("%s: looking up %06x panics: %v", desc, t, x)
				}
			}()
			count, off := ix.findList(t)
			want := lists[t]
			if count != len(want) {
				e.fail("%s: trigram %06x found with count %d, recorded with %d", desc, t, count, len(want))
			}
			if count > 0 {
				d := data[postData+off:]
				if got := uint32(d[0])<<16 | uint32(d[1])<<8 | uint32(d[2]); got != t {
					e.fail("%s: trigram %06x located at offset %d, which holds %06x", desc, t, off, got)
				}
			}
			if got := ix.PostingList(t); !slices.Equal(got, want) {
				e.fail("%s: PostingList(%06x)=%v want %v", desc, t, got, want)
			}
			e.count("lookups")
		}
		for _, t := range tris {
			look(t)
			if !set[t-1] && t > 1 {
				look(t - 1)
			}
			if t+1 < invalidTrigram {
				look(t + 1)
			}
		}
		for j := 0; j < 20; j++ {
			look(uint32(r.Intn(1<<24-2) + 1))
		}
		look(1)
		look(invalidTrigram - 1)
		// sequential reading, as used by merging, sees the same entries in order
		var pr postMapReader
		pr.init(ix, []idrange{{0, 1 << 40, 0}})
		for _, t := range tris {
			if pr.trigram != t || pr.count != len(lists[t]) {
				e.fail("%s: sequential reader at %06x count %d, expected %06x count %d", desc, pr.trigram, pr.count, t, len(lists[t]))
			}
			var got []int
			for pr.nextId() {
				got = append(got, pr.fileid)
			}
			if !slices.Equal(got, lists[t]) {
				e.fail("%s: sequential reader list of %06x is %v want %v", desc, t, got, lists[t])
			}
			pr.nextTrigram()
		}
		if version == 2 {
			// blocks hold whole entries
			b := data[postIndex:end]
			for i := 0; i < len(b); i += postBlockSize {
				if binary.BigEndian.Uint32(b[i:])>>8 == 0 {
					e.fail("%s: posting index block %d starts with padding", desc, i/postBlockSize)
				}
			}
			e.stats["blocks"] += len(b) / postBlockSize
		}
		e.count("indexes")
	}
	e.done()
}
