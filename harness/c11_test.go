package regexp

import (
	"bytes"
	"errors"
	"fmt"
	"html"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

type vChunks struct {
	d   []byte
	r   *rand.Rand
	max int
	err error
}

func (v *vChunks) Read(p []byte) (int, error) {
	if len(v.d) == 0 {
		return 0, v.err
	}
	n := len(p)
	if v.max > 0 {
		n = min(n, 1+v.r.Intn(v.max))
	}
	n = copy(p[:n], v.d)
	v.d = v.d[n:]
	if len(v.d) == 0 && v.r.Intn(3) == 0 {
		return n, v.err
	}
	if v.r.Intn(9) == 0 {
		return 0 + n, nil
	}
	return n, nil
}

// vGrepWant is the specification of the output without context lines.
func vGrepWant(g *Grep, pat string, lines [][]byte, hit []bool, name string, matchesBefore int) (string, bool, int, bool) {
	var out strings.Builder
	n := 0
	match, limited := false, false
	prefix := name + ":"
	if g.H {
		prefix = ""
	}
	esc := func(s string) string {
		if g.HTML {
			return html.EscapeString(s)
		}
		return s
	}
	for i, l := range lines {
		if !hit[i] {
			continue
		}
		match = true
		if g.Limit > 0 && matchesBefore+n >= g.Limit {
			limited = true
			return out.String(), match, n, limited
		}
		n++
		if g.L {
			if g.HTML {
				fmt.Fprintf(&out, "<a href=\"show/%s\">%s</a>\n", esc(name), esc(name))
			} else {
				fmt.Fprintf(&out, "%s\n", name)
			}
			return out.String(), match, n, limited
		}
		switch {
		case g.C:
		case g.HTML:
			fmt.Fprintf(&out, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s\n", esc(strings.ReplaceAll(name, "#", ">")), esc(pat), i+1, esc(name), i+1, esc(string(l)))
		case g.N:
			fmt.Fprintf(&out, "%s%d:%s\n", prefix, i+1, l)
		default:
			fmt.Fprintf(&out, "%s%s\n", prefix, l)
		}
	}
	if g.C && n > 0 {
		if g.HTML {
			fmt.Fprintf(&out, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", esc(name), esc(pat), esc(name), n)
		} else {
			fmt.Fprintf(&out, "%s: %d\n", name, n)
		}
	}
	return out.String(), match, n, limited
}

func TestVerifC11(t *testing.T) {
	e := vStart(t)
	r := e.r
	vCgrep(e, t)
	for e.more() {
		pat := vPattern(r, r.Intn(3))
		switch r.Intn(8) {
		case 0:
			pat = []string{"^$", "$", "^", "", "a", "^a", "a$", `\z`, `\A`, "a\\z", "\\Aa", "."}[r.Intn(12)]
		}
		if r.Intn(10) > 0 {
			pat = "(?m)" + pat
		}
		re, err := Compile(pat)
		if err != nil {
			continue
		}
		syn := vParse(pat)
		for k := 0; k < 12; k++ {
			var text []byte
			long := 0
			for n := r.Intn(30); n > 0; n-- {
				var l string
				switch r.Intn(4) {
				case 0:
					l = vLineText(r, syn, r.Intn(4) == 0)
				case 1:
					l = strings.Repeat("a", r.Intn(4))
				case 2:
					l = ""
				case 3:
					l = strings.Repeat(string(vRune(r)), r.Intn(9))
					l = strings.ReplaceAll(l, "\n", "")
				}
				long = max(long, len(l)+1)
				text = append(text, l...)
				text = append(text, '\n')
			}
			if len(text) > 0 && r.Intn(3) == 0 {
				text = text[:len(text)-1]
			}
			lines := vLines(text)
			hit := make([]bool, len(lines))
			terminated := len(text) > 0 && text[len(text)-1] == '\n'
			for i, l := range lines {
				hit[i] = vLineMatch(syn, l, i == 0, i == len(lines)-1 && !terminated)
			}
			var out, errb bytes.Buffer
			g := &Grep{Regexp: re, Stdout: &out, Stderr: &errb, L: r.Intn(6) == 0, C: r.Intn(4) == 0, N: r.Intn(2) == 0, H: r.Intn(3) == 0, HTML: r.Intn(4) == 0}
			if r.Intn(6) == 0 {
				g.Limit = 1 + r.Intn(4)
				g.Matches = r.Intn(2)
			}
			size := 1 << 20
			if r.Intn(5) > 0 {
				size = max(long, 1) + r.Intn(5)
				if r.Intn(2) == 0 {
					size = max(long, 1) + r.Intn(100)
				}
			}
			g.buf = make([]byte, size)
			name := []string{"x", "/a/b.go", "f<o>&", "a#b"}[r.Intn(4)]
			before := g.Matches
			want, wm, wn, wl := vGrepWant(g, pat, lines, hit, name, before)
			rd := &vChunks{text, r, []int{0, 1, 2, 5, 30}[r.Intn(5)], io.EOF}
			wantErr := ""
			if r.Intn(15) == 0 {
				rd.err = errors.New("bad <disk>")
				if !wl && !(g.L && wn > 0) {
					wantErr = "name: bad <disk>\n"
				}
			}
			desc := fmt.Sprintf("pattern %q text %q buffer %d flags L=%v C=%v N=%v H=%v HTML=%v Limit=%d name %q", pat, text, size, g.L, g.C, g.N, g.H, g.HTML, g.Limit, name)
			func() {
				defer func() {
					if x := recover(); x != nil {
						e.fail("%s: panic %v", desc, x)
					}
				}()
				g.Reader(rd, name)
			}()
			if out.String() != want {
				e.fail("%s: prints %q want %q", desc, out.String(), want)
			}
			if g.Match != wm || g.Matches != before+wn || g.Limited != wl {
				e.fail("%s: Match=%v Matches=%d Limited=%v want %v %d %v", desc, g.Match, g.Matches, g.Limited, wm, before+wn, wl)
			}
			if (errb.Len() > 0) != (wantErr != "") {
				e.fail("%s: error output %q", desc, errb.String())
			}
			e.count("searches")
			e.stats["lines"] += len(lines)
		}
	}
	e.done()
}

// vCgrep runs the cgrep command itself.
func vCgrep(e *vEnv, t *testing.T) {
	dir, err := os.MkdirTemp("", "vcgrep")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "cgrep")
	if o, err := exec.Command("go", "build", "-o", bin, "github.com/google/codesearch/cmd/cgrep").CombinedOutput(); err != nil {
		t.Fatalf("building cgrep: %v\n%s", err, o)
	}
	big := strings.Repeat("some filler text that is longer than one would think\n", 21000)
	texts := []string{"", "\n", "abc\n", "abc", "a\nB\n\nab\n", "x\nabc\ny\nabc", big + "abc\n" + big + "abc", strings.Repeat("abc"+strings.Repeat(" pad", 20)+"\n", 14000), strings.Repeat("z", 1<<20-5) + "\nabc\n" + big,
		strings.Repeat("z", 600000) + "\n" + strings.Repeat("y", 600000) + "abc\nabc\n"}
	var tlines [][][]byte
	for i, s := range texts {
		tlines = append(tlines, vLines([]byte(s)))
		os.WriteFile(filepath.Join(dir, fmt.Sprint("f", i)), []byte(s), 0600)
	}
	run := func(args []string, stdin string) (string, int) {
		c := exec.Command(bin, args...)
		c.Dir = dir
		c.Stdin = strings.NewReader(stdin)
		var out bytes.Buffer
		c.Stdout = &out
		err := c.Run()
		rc := 0
		if err != nil {
			rc = 1
		}
		return out.String(), rc
	}
	short := func(s string) string {
		if len(s) > 300 {
			return s[:150] + "..." + s[len(s)-150:]
		}
		return s
	}
	for k, pat := range []string{"abc", "^$", "b", "^a", "c$", "(?i)B", "zzz"} {
		for j, fl := range [][]string{{}, {"-n"}, {"-c"}, {"-l"}, {"-h"}, {"-n", "-h"}, {"-i"}, {"-i", "-c"}} {
			p := "(?m)" + pat
			g := &Grep{}
			for _, f := range fl {
				switch f {
				case "-n":
					g.N = true
				case "-c":
					g.C = true
				case "-l":
					g.L = true
				case "-h":
					g.H = true
				case "-i":
					p = "(?i)" + p
				}
			}
			syn := vParse(p)
			total, any := "", false
			var args []string
			for i, s := range texts {
				if i >= 6 && (k+j)%4 != int(e.seed)%4 {
					continue
				}
				lines := tlines[i]
				hit := make([]bool, len(lines))
				memo := map[string]bool{}
				for j, l := range lines {
					h, ok := memo[string(l)]
					if !ok {
						if len(l) > 10000 {
							h = strings.Contains(string(l), pat) && pat != "zzz" || pat == "zzz" && l[0] == 'z' || pat == "c$" && l[len(l)-1] == 'c' || pat == "(?i)B" && strings.ContainsAny(string(l), "bB")
						} else {
							h = vLineMatch(syn, l, true, true)
						}
						memo[string(l)] = h
					}
					hit[j] = h
				}
				name := fmt.Sprint("f", i)
				args = append(args, name)
				want, m, _, _ := vGrepWant(g, pat, lines, hit, name, 0)
				total += want
				any = any || m
				if i < 6 {
					got, rc := run(append(append([]string{}, fl...), pat), s)
					w2, m2, _, _ := vGrepWant(g, pat, lines, hit, "<standard input>", 0)
					if got != w2 || (rc == 0) != m2 {
						e.fail("cgrep %v %q with standard input %q prints %q (exit %d) want %q", fl, pat, short(s), short(got), rc, short(w2))
					}
				}
			}
			got, rc := run(append(append(append([]string{}, fl...), pat), args...), "")
			if got != total || (rc == 0) != any {
				e.fail("cgrep %v %q over the test files prints %d bytes (exit %d) want %d bytes: %q want %q", fl, pat, len(got), rc, len(total), short(got), short(total))
			}
			e.count("cgrep_runs")
		}
	}
	// -v is documented to print the lines that do not match
	if got, _ := run([]string{"-v", "abc"}, "abc\nxyz\n"); got != "<standard input>:xyz\n" {
		e.t.Errorf("FAILING-INPUT cgrep -v %q on %q prints %q", "abc", "abc\\nxyz\\n", got)
	}
}
