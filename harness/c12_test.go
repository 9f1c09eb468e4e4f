package regexp

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"math/rand"
	"strings"
	"testing"
)

type vPieces struct {
	d   []byte
	r   *rand.Rand
	max int
}

func (v *vPieces) Read(p []byte) (int, error) {
	if len(v.d) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if v.max > 0 {
		n = min(n, 1+v.r.Intn(v.max))
	}
	n = copy(p[:n], v.d)
	v.d = v.d[n:]
	return n, nil
}

func vBlank(s string) bool { return strings.TrimRight(s, " \t\r\n") == "" }

// vContextCheck compares one display with the neighbourhood lines[lo:hi] of line m.
// It returns the rest of out, and what is wrong.
func vContextCheck(out, head string, lines [][]byte, lo, m, hi int, esc func(string) string) (string, string) {
	if !strings.HasPrefix(out, head) {
		return out, fmt.Sprintf("want the display of line %d (%q) next", m+1, head)
	}
	out = out[len(head):]
	var shown []string
	for i := lo; i < hi; i++ {
		lead := "\t\t"
		if i == m {
			lead = "\t>>\t"
		}
		var l string
		l, out, _ = strings.Cut(out, "\n")
		if !strings.HasPrefix(l, lead) {
			return out, fmt.Sprintf("line %d is not shown in the display of line %d; shown is %q", i+1, m+1, l)
		}
		shown = append(shown, l[len(lead):])
	}
	// one common white-space prefix
	prefix, have := "", false
	for i, s := range shown {
		t := strings.TrimRight(string(lines[lo+i]), " \t\r\n")
		if t == "" {
			if s != "" {
				return out, fmt.Sprintf("blank line %d is shown as %q", lo+i+1, s)
			}
			continue
		}
		et := esc(t)
		if !strings.HasSuffix(et, s) {
			return out, fmt.Sprintf("line %d (%q) is shown as %q", lo+i+1, t, s)
		}
		p := et[:len(et)-len(s)]
		if strings.Trim(p, " \t") != "" {
			return out, fmt.Sprintf("line %d (%q) is shown as %q", lo+i+1, t, s)
		}
		if have && p != prefix {
			return out, fmt.Sprintf("line %d (%q) loses %q where another loses %q", lo+i+1, t, p, prefix)
		}
		prefix, have = p, true
	}
	return out, ""
}

func TestVerifC12(t *testing.T) {
	e := vStart(t)
	r := e.r
	for e.more() {
		pat := []string{"x", "x|^$", "^", "a+", "y$", "^$", "[xy]z?", "b", "^\\s*x"}[r.Intn(9)]
		pat = "(?m)" + pat
		re, err := Compile(pat)
		if err != nil {
			t.Fatal(err)
		}
		syn := vParse(pat)
		for k := 0; k < 12; k++ {
			var lines [][]byte
			dense := 1 + r.Intn(8)
			indent := []string{"", " ", "\t", "\t ", "  "}[r.Intn(5)]
			for n := r.Intn(40); n > 0; n-- {
				var l string
				switch r.Intn(8) {
				case 0:
				case 1:
					l = strings.Repeat(" ", r.Intn(4)) + strings.Repeat("\t", r.Intn(2))
				default:
					if r.Intn(6) > 0 {
						l = indent
					}
					l += strings.Repeat(" ", r.Intn(3)) + strings.Repeat("\t", r.Intn(2))
					for j := 0; j < r.Intn(5); j++ {
						l += string("bcd<&e é"[r.Intn(8)])
					}
					if r.Intn(dense) == 0 {
						l += string("xyaz"[r.Intn(4)])
					}
					l += strings.Repeat(" ", r.Intn(2)) + strings.Repeat("\r", r.Intn(6)/5)
				}
				lines = append(lines, []byte(l))
			}
			text := bytes.Join(lines, []byte("\n"))
			if r.Intn(3) > 0 && len(lines) > 0 {
				text = append(text, '\n')
			}
			lines = vLines(text)
			hit := make([]bool, len(lines))
			for i, l := range lines {
				hit[i] = vLineMatch(syn, l, i == 0, i == len(lines)-1 && text[len(text)-1] != '\n')
			}
			pre, post := r.Intn(4), r.Intn(4)
			if r.Intn(12) == 0 {
				pre, post = r.Intn(50), r.Intn(50)
			}
			if pre+post == 0 {
				pre = 1
			}
			// the neighbourhoods have to fit the buffer with a byte to spare
			need := 2
			for i := range lines {
				n := 0
				for j := i; j < len(lines) && j < i+pre+post+3; j++ {
					n += len(lines[j]) + 1
				}
				need = max(need, n+1)
			}
			size := need + r.Intn(4)
			if r.Intn(4) == 0 {
				size = need + r.Intn(200)
			}
			var out, errb bytes.Buffer
			g := &Grep{Regexp: re, Stdout: &out, Stderr: &errb, PreContext: pre, PostContext: post, HTML: r.Intn(4) == 0, H: r.Intn(3) == 0, N: r.Intn(2) == 0}
			if r.Intn(6) == 0 {
				g.Limit = 1 + r.Intn(4)
			}
			g.buf = make([]byte, size)
			esc := func(s string) string {
				if g.HTML {
					return html.EscapeString(s)
				}
				return s
			}
			name := []string{"f", "a<b>"}[r.Intn(2)]
			chunk := []int{0, 1, 3, 20}[r.Intn(4)]
			desc := fmt.Sprintf("pattern %q text %q buffer %d before %d after %d HTML=%v H=%v Limit=%d reads of at most %d", pat, text, size, pre, post, g.HTML, g.H, g.Limit, chunk)
			func() {
				defer func() {
					if x := recover(); x != nil {
						e.fail("%s: panic %v", desc, x)
					}
				}()
				g.Reader(&vPieces{text, r, chunk}, name)
			}()
			rest, n := out.String(), 0
			for i := range lines {
				if !hit[i] {
					continue
				}
				if g.Limit > 0 && n >= g.Limit {
					break
				}
				n++
				head := fmt.Sprintf("%s:%d:\n", esc(name), i+1)
				if g.H {
					head = fmt.Sprintf("%d:\n", i+1)
				}
				var wrong string
				rest, wrong = vContextCheck(rest, head, lines, max(0, i-pre), i, min(len(lines), i+1+post), esc)
				if wrong != "" {
					e.fail("%s: %s; output %q", desc, wrong, out.String())
				}
				e.count("displays")
			}
			if rest != "" {
				e.fail("%s: extra output %q", desc, rest)
			}
			if n != g.Matches || errb.Len() > 0 {
				e.fail("%s: %d matches counted, %d shown; errors %q", desc, g.Matches, n, errb.String())
			}
			e.count("searches")
		}
	}
	e.done()
}
