package index

import (
	"math/rand"
	"os"
	"testing"
)

func vGap(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(40)
	case 1:
		return 0
	case 2:
		k := uint(r.Intn(63))
		x := 1<<k + r.Intn(5) - 2
		if x < 0 {
			x = 0
		}
		return x
	case 3:
		return int(r.Int63() >> uint(r.Intn(63)))
	case 4:
		return 1<<63 - 2 - r.Intn(4)
	}
	return 1 + r.Intn(3)
}

func TestVerifC03(t *testing.T) {
	e := vStart(t)
	r := e.r
	old := writeVersion
	defer func() { writeVersion = old }()
	run := func(version int, lists [][]int) {
		writeVersion = version
		out := bufCreate("")
		defer os.Remove(out.name)
		defer out.file.Close()
		var w deltaWriter
		w.init(out)
		var ends []int
		for _, l := range lists {
			for _, x := range l {
				w.Write(x)
			}
			w.Flush()
			ends = append(ends, out.Offset())
		}
		out.Flush()
		data, err := os.ReadFile(out.name)
		if err != nil {
			t.Fatal(err)
		}
		ix := &Index{version: version}
		var rd deltaReader
		rd.init(ix, data)
		defer func() {
			if x := recover(); x != nil {
				e.fail("version %d lists %v: reading panics: %v", version, lists, x)
			}
		}()
		for i, l := range lists {
			for j, x := range l {
				if y := rd.next(); y != x {
					e.fail("version %d lists %v: list %d gap %d read as %d, written %d", version, lists, i, j, y, x)
				}
				e.count("gaps")
			}
			rd.clearBits()
			if got := len(data) - len(rd.d); got != ends[i] {
				e.fail("version %d lists %v: reading list %d stopped at byte %d, it was written up to %d", version, lists, i, got, ends[i])
			}
		}
		e.count("lists")
	}
	// every width of value at every bit position
	for pad := 0; pad < 16; pad++ {
		for k := uint(0); k < 63; k++ {
			for _, d := range []int{-1, 0, 1} {
				x := 1<<k + d
				if x < 0 || x > 1<<63-2 {
					continue
				}
				l := make([]int, pad)
				for i := range l {
					l[i] = 1
				}
				run(2, [][]int{append(l, x, 1, x), {x}})
			}
		}
	}
	for e.more() {
		var lists [][]int
		for n := r.Intn(4) + 1; n > 0; n-- {
			l := make([]int, r.Intn(30)+1)
			for i := range l {
				l[i] = vGap(r)
			}
			lists = append(lists, l)
		}
		run(1+r.Intn(2), lists)
	}
	// sequences of small gaps only, exhaustively: zero, the escape and its neighbours
	vals := []int{0, 1, 2, 15, 16, 17, 31, 32}
	for a := range vals {
		for b := range vals {
			for c := range vals {
				for v := 1; v <= 2; v++ {
					run(v, [][]int{{vals[a], vals[b], vals[c]}, {vals[c]}})
				}
			}
		}
	}
	e.done()
}
