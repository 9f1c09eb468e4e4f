package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	cre "github.com/google/codesearch/regexp"
)

// vIndexable is C06's rule.
func vIndexable(b []byte) bool {
	line := 0
	tri := map[string]bool{}
	for i, c := range b {
		if c == 0 {
			return false
		}
		line++
		if line > 2000 {
			return false
		}
		if c == '\n' {
			line = 0
		}
		if i > 0 && vBadPair(b[i-1], c) {
			return false
		}
		if i > 1 {
			tri[string(b[i-2:i+1])] = true
		}
	}
	return len(tri) <= 20000
}

// vBadPair reports whether no UTF-8 text has c followed by d.
func vBadPair(c, d byte) bool {
	switch {
	case c < 0x80:
		return 0x80 <= d && d < 0xc0
	case c < 0xc0:
		return d >= 0xf8
	case c < 0xf8:
		return d < 0x80 || d >= 0xc0
	}
	return true
}

type vEntry struct {
	name  string
	text  string
	isZip bool
	files []vEntry
}

func vHidden(elem string) bool {
	return elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~'
}

func vCtl(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' {
			return true
		}
	}
	return s == ""
}

// vWalk lists the files that indexing root adds: name -> text.
func vWalk(root string, zips bool, zipOf map[string][]vEntry, into map[string]string) {
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		el := filepath.Base(p)
		if vHidden(el) {
			if info != nil && info.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if err != nil || !info.Mode().IsRegular() || vCtl(p) {
			return nil
		}
		b, _ := os.ReadFile(p)
		if zips && strings.HasSuffix(p, ".zip") {
			real, _ := filepath.EvalSymlinks(p)
			es, ok := zipOf[real]
			if !ok {
				return nil
			}
			last := map[string]string{}
			for _, x := range es {
				last[x.name] = x.text
			}
			for n, s := range last {
				if !vCtl(n) && vIndexable([]byte(s)) {
					into[p+"\x01"+n] = s
				}
			}
			return nil
		}
		if vIndexable(b) {
			into[p] = string(b)
		}
		return nil
	})
}

func vBelow(p, root string) bool {
	return p == root || strings.HasPrefix(p, root+"/") || strings.HasPrefix(p, root+"\x01")
}

func TestVerifC17(t *testing.T) {
	e := vStart(t)
	r := e.r
	top, err := os.MkdirTemp("", "vtree")
	if err != nil {
		t.Fatal(err)
	}
	top, _ = filepath.EvalSymlinks(top)
	defer os.RemoveAll(top)
	for _, c := range []string{"cindex", "csearch"} {
		if o, err := exec.Command("go", "build", "-o", filepath.Join(top, c), "github.com/google/codesearch/cmd/"+c).CombinedOutput(); err != nil {
			t.Fatalf("building %s: %v\n%s", c, err, o)
		}
	}
	ixf := filepath.Join(top, "ix")
	run := func(dir, cmd string, args ...string) (string, string, int) {
		c := exec.Command(filepath.Join(top, cmd), args...)
		c.Dir = dir
		c.Env = append(os.Environ(), "CSEARCHINDEX="+ixf)
		var out, errb bytes.Buffer
		c.Stdout, c.Stderr = &out, &errb
		rc := 0
		if c.Run() != nil {
			rc = c.ProcessState.ExitCode()
		}
		return out.String(), errb.String(), rc
	}
	elems := []string{"a", "b", "c", "ab", "a.go", "b-c", "a b", "x.txt", "A", "é", ".hid", "#tmp", "~t", "back~", "a+", "src", "z", "a.zip", "m.zip", "q.zip", "a!", "a\x02b"}
	for round := 0; e.more(); round++ {
		tree := filepath.Join(top, fmt.Sprint("t", round))
		os.Mkdir(tree, 0700)
		var history []string
		zipOf := map[string][]vEntry{}
		var pats []string
		for len(pats) < 4 {
			p := vPattern(r, r.Intn(3))
			if _, err := cre.Compile("(?m)" + p); err == nil {
				pats = append(pats, p)
			}
		}
		pats = append(pats, "abc", "a", "", "^$", "zqx", ".", "foo|bar")
		text := func() string {
			var b strings.Builder
			switch r.Intn(12) {
			case 0:
				return "abc\x00def\n"
			case 1:
				return "x\n" + strings.Repeat("q", 1990+r.Intn(20)) + "\nabc\n"
			case 2:
				return "caf\xff\xfe\n"
			case 3:
				return ""
			}
			for n := r.Intn(8); n > 0; n-- {
				if r.Intn(2) == 0 {
					b.WriteString([]string{"abc", "foo", "bar", "", " a ", "foobar", "zq x"}[r.Intn(7)])
				} else {
					b.WriteString(vLineText(r, vParse("(?m)"+pats[r.Intn(4)]), false))
				}
				b.WriteByte('\n')
			}
			s := strings.ReplaceAll(b.String(), "\x00", "0")
			if r.Intn(4) == 0 {
				s = strings.TrimSuffix(s, "\n")
			}
			return s
		}
		mutate := func(under string) {
			for n := 1 + r.Intn(8); n > 0; n-- {
				p := under
				for d := r.Intn(3); d >= 0; d-- {
					p += "/" + elems[r.Intn(len(elems))]
				}
				if r.Intn(6) == 0 && !strings.HasSuffix(p, ".zip") {
					p += ".zip"
				}
				if r.Intn(5) == 0 {
					os.RemoveAll(p)
					delete(zipOf, p)
					continue
				}
				if os.MkdirAll(filepath.Dir(p), 0700) != nil {
					continue
				}
				if d, err := filepath.EvalSymlinks(filepath.Dir(p)); err == nil {
					p = d + "/" + filepath.Base(p) // the tree below a link belongs to its target
				}
				if fi, err := os.Lstat(p); err == nil && !fi.Mode().IsRegular() {
					continue
				}
				if r.Intn(14) == 0 {
					os.Remove(p)
					os.Symlink("a.go", p)
					continue
				}
				if strings.HasSuffix(p, ".zip") && r.Intn(6) > 0 {
					w, err := os.Create(p)
					if err != nil {
						continue
					}
					zw := zip.NewWriter(w)
					var es []vEntry
					for k := r.Intn(9); k > 0; k-- {
						x := vEntry{name: []string{"a", "a/b", "a.go", "b", "ab", "a-b", "c/d/e", "bad\x02", "é", "a/b-c", "c", "c.d"}[r.Intn(12)], text: text()}
						zz, err := zw.Create(x.name)
						if err != nil {
							continue
						}
						zz.Write([]byte(x.text))
						es = append(es, x)
					}
					zw.Close()
					w.Close()
					zipOf[p] = es
					continue
				}
				delete(zipOf, p)
				os.WriteFile(p, []byte(text()), 0600)
			}
		}
		mutate(tree)
		mutate(tree)
		var roots []string // of the index
		indexed := map[string]string{}
		os.Remove(ixf)
		for step := 0; step < 1+r.Intn(4); step++ {
			// what to index
			zips := r.Intn(2) == 0
			var args, abs []string
			if zips {
				args = append(args, "-zip")
			}
			if r.Intn(6) == 0 {
				args = append(args, "-check")
			}
			reset := false
			if step > 0 && r.Intn(6) == 0 {
				args = append(args, "-reset")
				reset = true
			}
			if step > 0 && !reset && r.Intn(4) == 0 {
				abs = append([]string{}, roots...)
			} else {
				for n := 1 + r.Intn(3); n > 0; n-- {
					p := tree
					for d := r.Intn(3); d > 0; d-- {
						p += "/" + elems[r.Intn(len(elems))]
					}
					if strings.Contains(p, "\x02") {
						continue
					}
					if fi, err := os.Lstat(p); err != nil || !fi.IsDir() && !fi.Mode().IsRegular() {
						continue
					}
					abs = append(abs, p)
					switch r.Intn(3) {
					case 0:
						args = append(args, p+"/./")
					case 1:
						rel, _ := filepath.Rel(tree, p)
						args = append(args, rel)
					default:
						args = append(args, p)
					}
				}
				if len(abs) == 0 {
					args = append(args, tree)
					abs = append(abs, tree)
				}
			}
			if step > 0 {
				mutate(abs[r.Intn(len(abs))])
				for i := range abs { // the roots may have gone or changed their kind
					if fi, err := os.Lstat(abs[i]); err == nil && fi.Mode()&os.ModeSymlink != 0 {
						os.Remove(abs[i])
					}
				}
			}
			_, errs, rc := run(tree, "cindex", args...)
			history = append(history, fmt.Sprintf("cindex %q", args))
			if rc != 0 {
				e.fail("%v over %v: exit %d: %s", history, vTree(tree), rc, errs)
			}
			if reset {
				indexed, roots = map[string]string{}, nil
			}
			for p := range indexed {
				for _, a := range abs {
					if vBelow(p, a) {
						delete(indexed, p)
					}
				}
			}
			for _, a := range abs {
				vWalk(a, zips, zipOf, indexed)
			}
			all := append(append([]string{}, roots...), abs...)
			roots = nil
			for i, a := range all {
				keep := true
				for j, b := range all {
					if a == b && j < i || a != b && vBelow(a, b) {
						keep = false
					}
				}
				if keep {
					roots = append(roots, a)
				}
			}
			key := func(s string) string { return strings.ReplaceAll(s, "/", "\x00") }
			sort.Slice(roots, func(i, j int) bool { return key(roots[i]) < key(roots[j]) })
			out, _, _ := run(tree, "cindex", "-list")
			if want := strings.Join(append(append([]string{}, roots...), ""), "\n"); out != want {
				e.fail("%v over %v: cindex -list prints %q want %q", history, vTree(tree), out, want)
			}
			var names []string
			for n := range indexed {
				names = append(names, n)
			}
			sort.Slice(names, func(i, j int) bool { return key(names[i]) < key(names[j]) })
			// search
			for k := 0; k < 6; k++ {
				pat := pats[r.Intn(len(pats))]
				var sa []string
				g := cre.Grep{}
				full := "(?m)" + pat
				if r.Intn(4) == 0 {
					sa = append(sa, "-i")
					full = "(?i)" + full
				}
				switch r.Intn(6) {
				case 0:
					sa, g.L = append(sa, "-l"), true
				case 1:
					sa, g.C = append(sa, "-c"), true
				case 2:
					sa, g.N = append(sa, "-n"), true
				case 3:
					sa, g.H = append(sa, "-h"), true
				}
				if r.Intn(5) == 0 {
					sa, g.PreContext, g.PostContext = append(sa, "-A", "1", "-B", "2"), 2, 1
				}
				if r.Intn(6) == 0 {
					sa, g.HTML = append(sa, "-html"), true
				}
				if r.Intn(8) == 0 {
					sa = append(sa, "-brute")
				}
				var fre *cre.Regexp
				f := ""
				if r.Intn(3) == 0 {
					f = []string{"a", "b$", "\\.go$", "^/", "zip", "x", "^" + tree + "/a", "é"}[r.Intn(8)]
					fre, _ = cre.Compile(f)
					sa = append(sa, "-f", f)
				}
				re, err := cre.Compile(full)
				if err != nil {
					continue
				}
				var want, werr bytes.Buffer
				g.Regexp, g.Stdout, g.Stderr = re, &want, &werr
				for _, n := range names {
					if fre != nil && fre.MatchString(n, true, true) < 0 {
						continue
					}
					g.Reader(strings.NewReader(indexed[n]), n)
				}
				sa = append(sa, "--", pat)
				got, gerr, rc := run(tree, "csearch", sa...)
				if got != want.String() || gerr != werr.String() || (rc == 0) != g.Match {
					e.fail("%v over %v then csearch %q: prints %q %q (exit %d); scanning every indexed file gives %q", history, vTree(tree), sa, got, gerr, rc, want.String())
				}
				e.count("searches")
			}
			e.count("indexings")
		}
		os.RemoveAll(tree)
	}
	e.done()
	_ = rand.Int
}

func vTree(top string) string {
	s := ""
	filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			if len(b) > 200 {
				b = b[:200]
			}
			s += fmt.Sprintf("%q:%q ", p, b)
		} else {
			s += fmt.Sprintf("%q ", p)
		}
		return nil
	})
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
