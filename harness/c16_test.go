package sparse

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

func TestVerifC16(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	end := time.Now().Add(time.Duration(secs) * time.Second)
	r := rand.New(rand.NewSource(seed))
	n := 0
	// Large sets: dense blocks and multiples of large powers of two.
	for _, step := range []uint32{1, 3, 256} {
		m := uint32(1 << 24)
		cnt := uint32(1) << 24 / step
		if cnt > 200000 {
			cnt = 200000
		}
		s := NewSet(m)
		for g := 0; g < 2; g++ {
			for i := uint32(0); i < cnt; i++ {
				s.Add(i * step)
			}
			for i := uint32(0); i < cnt; i += 7 {
				s.Add(i * step)
			}
			bad := uint32(0)
			for i, x := range s.Dense() {
				if x != uint32(i)*step {
					bad++
				}
			}
			for i := uint32(0); i < cnt; i += 5 {
				if !s.Has(i * step) || step > 1 && s.Has(i*step+1) {
					bad++
				}
			}
			if bad > 0 || s.Len() != int(cnt) {
				t.Fatalf("FAILING-INPUT NewSet(1<<24), Add of %d multiples of %d (every seventh twice), round %d: Len=%d, %d wrong answers", cnt, step, g, s.Len(), bad)
			}
			s.Reset()
			if s.Len() != 0 || s.Has(0) || s.Has(step) {
				t.Fatalf("FAILING-INPUT Reset of a set with %d elements: Len=%d Has(0)=%v", cnt, s.Len(), s.Has(0))
			}
		}
		n++
	}
	for time.Now().Before(end) {
		n++
		max := uint32(r.Intn(20) + 1)
		if r.Intn(20) == 0 {
			max = 1 << 24
		}
		var s *Set
		if r.Intn(2) == 0 {
			s = NewSet(max)
		} else {
			s = new(Set)
			s.Init(max)
		}
		var model []uint32
		in := map[uint32]bool{}
		hist := fmt.Sprintf("max=%d", max)
		for op := r.Intn(60); op >= 0; op-- {
			x := uint32(r.Intn(int(max)))
			if r.Intn(4) == 0 {
				x = max - 1
			}
			switch k := r.Intn(10); {
			case k == 0:
				s.Reset()
				model = nil
				in = map[uint32]bool{}
				hist += " Reset"
			case k < 7:
				s.Add(x)
				hist += fmt.Sprintf(" Add(%d)", x)
				if !in[x] {
					in[x] = true
					model = append(model, x)
				}
			}
			bad := ""
			if s.Has(x) != in[x] {
				bad = fmt.Sprintf("Has(%d)=%v", x, s.Has(x))
			}
			y := uint32(r.Intn(int(max)))
			if s.Has(y) != in[y] {
				bad = fmt.Sprintf("Has(%d)=%v", y, s.Has(y))
			}
			if s.Len() != len(model) {
				bad = fmt.Sprintf("Len()=%d want %d", s.Len(), len(model))
			}
			if d := s.Dense(); fmt.Sprint(d) != fmt.Sprint(model) && !(len(d) == 0 && len(model) == 0) {
				bad = fmt.Sprintf("Dense()=%v want %v", d, model)
			}
			if bad != "" {
				t.Fatalf("FAILING-INPUT sparse set history [%s]: %s", hist, bad)
			}
		}
	}
	t.Logf("STAT histories %d", n)
}
