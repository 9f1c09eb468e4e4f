package regexp

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

type vErrReader struct {
	d   []byte
	err error
}

func (v *vErrReader) Read(p []byte) (int, error) {
	if len(v.d) == 0 {
		return 0, v.err
	}
	n := copy(p, v.d)
	v.d = v.d[n:]
	return n, nil
}

func TestVerifC14(t *testing.T) {
	e := vStart(t)
	r := e.r
	junk := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += vMarkup[r.Intn(len(vMarkup))]
		}
		return s
	}
	for e.more() {
		pat := []string{"a", "<", "&", "[<>\"'&]", "b|<i>", "^", "x<y|\"", "(?i)SCRIPT", "&lt;|'"}[r.Intn(9)]
		pat = "(?m)" + pat
		re, err := Compile(pat)
		if err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 20; k++ {
			var text []byte
			for n := r.Intn(12); n > 0; n-- {
				l := strings.Repeat(" ", r.Intn(3)) + junk(r.Intn(4))
				if r.Intn(10) == 0 {
					l += string([]byte{byte(128 + r.Intn(128))})
				}
				text = append(text, l+"\n"...)
			}
			if len(text) > 0 && r.Intn(3) == 0 {
				text = text[:len(text)-1]
			}
			name := "/d/" + junk(1+r.Intn(3))
			end := io.EOF
			if r.Intn(4) == 0 {
				end = errors.New("read " + junk(1+r.Intn(3)))
			}
			g := Grep{Regexp: re, HTML: true, L: r.Intn(5) == 0, C: r.Intn(4) == 0, N: r.Intn(2) == 0, H: r.Intn(3) == 0}
			if r.Intn(2) == 0 {
				g.PreContext, g.PostContext = r.Intn(3), r.Intn(3)
			}
			if r.Intn(6) == 0 {
				g.Limit = 1 + r.Intn(3)
			}
			if r.Intn(12) > 0 {
				g.buf = make([]byte, 60+r.Intn(300))
			}
			p := g
			p.buf = make([]byte, len(g.buf))
			if g.buf == nil {
				p.buf = nil
			}
			p.HTML = false
			p.H = g.H && (!g.L && !g.C && g.PreContext+g.PostContext > 0)
			p.N = true
			var out, errb, pout, perr bytes.Buffer
			g.Stdout, g.Stderr, p.Stdout, p.Stderr = &out, &errb, &pout, &perr
			g.Reader(&vErrReader{text, end}, name)
			p.Reader(&vErrReader{text, end}, name)
			desc := fmt.Sprintf("pattern %q text %q name %q L=%v C=%v N=%v H=%v before %d after %d read error %q", pat, text, name, g.L, g.C, g.N, g.H, g.PreContext, g.PostContext, end)
			s, bad := vSafe(out.String())
			if bad != "" {
				e.fail("%s: HTML output: %s", desc, bad)
			}
			if s != pout.String() {
				e.fail("%s: HTML output says %q, text output %q", desc, s, pout.String())
			}
			s, bad = vSafe(errb.String())
			if bad != "" {
				e.fail("%s: HTML error output: %s", desc, bad)
			}
			if s != perr.String() {
				e.fail("%s: HTML error output says %q, text output %q", desc, s, perr.String())
			}
			e.count("searches")
		}
		// a file that cannot be opened
		var errb bytes.Buffer
		g := Grep{Regexp: re, HTML: true, Stdout: &errb, Stderr: &errb}
		name := filepath.Join(os.TempDir(), "no-such-"+strings.ReplaceAll(junk(3), "/", "_"))
		g.File(name)
		s, bad := vSafe(errb.String())
		if bad != "" || !strings.Contains(s, name) {
			e.fail("file %q: HTML error output %q: %s", name, errb.String(), bad)
		}
	}
	e.done()
	_ = rand.Int
}
