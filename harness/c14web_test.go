package main

import (
	"archive/zip"
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/google/codesearch/index"
	cre "github.com/google/codesearch/regexp"
)

// vPage cuts the program's own start off a page and checks the rest.
func vPage(e *vEnv, desc, body, start, end, arg string) string {
	i := strings.Index(body, "<pre>\n")
	if i < 0 {
		e.fail("%s: page has no <pre>: %.200q", desc, body)
	}
	head, rest := body[:i], body[i+len("<pre>\n"):]
	j, k := strings.Index(head, start), 0
	if j >= 0 {
		k = strings.Index(head[j+len(start):], end)
	}
	if j < 0 || k < 0 {
		e.fail("%s: page start %q lacks %q", desc, head, start)
	}
	val := head[j+len(start) : j+len(start)+k]
	got, bad := vSafe(val)
	if bad != "" || got != arg {
		e.fail("%s: %q in the page start stands for %q: %s", desc, val, arg, bad)
	}
	// the same start, whatever the argument
	head = head[:j] + head[j+len(start)+k:]
	if len(head) > 600 || strings.Contains(head, "alert") {
		e.fail("%s: page start %q", desc, head)
	}
	return rest
}

func TestVerifC14(t *testing.T) {
	e := vStart(t)
	r := e.r
	log.SetOutput(io.Discard)
	junk := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += vMarkup[r.Intn(len(vMarkup))]
		}
		return s
	}
	mux := http.NewServeMux()
	mux.HandleFunc("/", home)
	mux.HandleFunc("/show/", show)
	srv := httptest.NewServer(mux)
	defer srv.Close()
	cl := srv.Client()
	cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	get := func(path, query string) (string, string, int) {
		u := srv.URL + (&url.URL{Path: path}).EscapedPath()
		if query != "" {
			u += "?" + query
		}
		resp, err := cl.Get(u)
		if err != nil {
			t.Fatal(err)
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			t.Fatal(err)
		}
		return string(b), resp.Header.Get("Content-Type"), resp.StatusCode
	}
	isHTML := func(ct string) bool {
		return ct == "" || strings.Contains(ct, "html") || strings.Contains(ct, "xml") || strings.Contains(ct, "svg")
	}
	for round := 0; e.more(); round++ {
		top, err := os.MkdirTemp("", "vweb")
		if err != nil {
			t.Fatal(err)
		}
		dir := filepath.Join(top, "t")
		os.Mkdir(dir, 0700)
		type file struct{ name, text string }
		var files []file
		seen := map[string]bool{}
		for n := 2 + r.Intn(5); n > 0; n-- {
			name := "f" + strings.ReplaceAll(junk(1+r.Intn(3)), "/", "_") + "z"
			if r.Intn(3) == 0 {
				sub := "d" + strings.ReplaceAll(junk(1), "/", "_") + "z"
				if !seen[sub] {
					os.MkdirAll(filepath.Join(dir, sub), 0700)
					name = sub + "/" + name
				}
			}
			if seen[name] || seen[strings.Split(name, "/")[0]] && !strings.Contains(name, "/") {
				continue
			}
			seen[name] = true
			text := ""
			for k := r.Intn(6); k >= 0; k-- {
				text += junk(r.Intn(4)) + "\n"
			}
			if r.Intn(3) == 0 {
				text = text[:len(text)-1]
			}
			if os.WriteFile(filepath.Join(dir, name), []byte(text), 0600) != nil {
				continue
			}
			files = append(files, file{filepath.Join(dir, name), text})
		}
		zname, ztext := "m"+junk(2), junk(3)+"\n<script>\n"
		zf := filepath.Join(dir, "z.zip")
		w, _ := os.Create(zf)
		zw := zip.NewWriter(w)
		if zz, err := zw.Create(zname); err == nil {
			zz.Write([]byte(ztext))
		}
		zw.Close()
		w.Close()
		ixf := filepath.Join(top, "ix")
		os.Setenv("CSEARCHINDEX", ixf)
		sort.Slice(files, func(i, j int) bool {
			return index.MakePath(files[i].name).Compare(index.MakePath(files[j].name)) < 0
		})
		ix := index.Create(ixf)
		ix.Zip = true
		ix.AddRoots([]index.Path{index.MakePath(dir)})
		zdone := false
		for _, f := range files {
			if !zdone && index.MakePath(zf).Compare(index.MakePath(f.name)) < 0 {
				ix.AddFile(zf)
				zdone = true
			}
			ix.AddFile(f.name)
		}
		if !zdone {
			ix.AddFile(zf)
		}
		ix.Flush()
		gone := -1
		if len(files) > 0 && r.Intn(3) == 0 { // reading it fails with an error that names it
			gone = r.Intn(len(files))
			os.Remove(files[gone].name)
			os.Mkdir(files[gone].name, 0700)
		}
		for k := 0; k < 8; k++ {
			q := []string{"a", "<", "&", "[<>\"'&]", "<script>", "b", "z", "^", junk(2), junk(3), "(" + junk(2), "[" + junk(1), "*<i>", "QUERY", "<QUERY>"}[r.Intn(15)]
			f := ""
			if r.Intn(3) == 0 {
				f = []string{".", "z", junk(1), "(<b>", "*" + junk(1), "[\"" + junk(1)}[r.Intn(6)]
			}
			*verboseFlag = r.Intn(4) == 0
			body, ct, _ := get("/", url.Values{"q": {q}, "f": {f}}.Encode())
			desc := fmt.Sprintf("query q=%q f=%q over files %q", q, f, files)
			if !strings.Contains(ct, "html") {
				e.fail("%s: served as %q", desc, ct)
			}
			rest := vPage(e, desc, body, `name="q" value="`, `">`, q)
			if q == "" {
				if rest != "" {
					e.fail("%s: page %q", desc, body)
				}
				continue
			}
			text, bad := vSafe(rest)
			if bad != "" {
				e.fail("%s: %s", desc, bad)
			}
			if *verboseFlag {
				continue
			}
			re, err := cre.Compile("(?m)" + q)
			var fre *cre.Regexp
			if err == nil && f != "" {
				fre, err = cre.Compile(f)
			}
			if err != nil {
				if !strings.Contains(text, err.Error()) {
					e.fail("%s: page says %q for the error %q", desc, text, err)
				}
				e.count("bad_queries")
				continue
			}
			var want strings.Builder
			g := cre.Grep{Regexp: re, N: true, Stdout: &want, Stderr: &want}
			did := false
			all := append([]file{}, files...)
			zn := zf + "\x01" + zname
			for i, fl := range all {
				if !did && index.MakePath(zn).Compare(index.MakePath(fl.name)) < 0 {
					did = true
					if zname != "" && (fre == nil || fre.MatchString(zn, true, true) >= 0) {
						g.Reader(strings.NewReader(ztext), zn)
					}
				}
				if fre != nil && fre.MatchString(fl.name, true, true) < 0 {
					continue
				}
				if i == gone {
					if strings.Contains(text, fl.name+": read "+fl.name) {
						fmt.Fprintf(&want, "%s: read %s: is a directory\n", fl.name, fl.name)
					}
					continue
				}
				g.Reader(strings.NewReader(fl.text), fl.name)
			}
			if !did && (fre == nil || fre.MatchString(zn, true, true) >= 0) {
				g.Reader(strings.NewReader(ztext), zn)
			}
			if !strings.HasPrefix(text, want.String()+"\n") {
				e.fail("%s: page says %q want %q", desc, text, want.String())
			}
			e.count("pages")
		}
		*verboseFlag = false
		for i, fl := range files {
			body, ct, code := get("/show"+fl.name, "")
			desc := fmt.Sprintf("file %q holding %q", fl.name, fl.text)
			if code != 200 {
				if isHTML(ct) {
					e.fail("%s: error served as %q: %q", desc, ct, body)
				}
				continue
			}
			if !isHTML(ct) {
				continue
			}
			if i == gone || !strings.HasPrefix(body, "<!DOCTYPE html>") {
				if _, bad := vSafe(body); !strings.HasPrefix(body, "<!DOCTYPE html>") && bad != "" {
					e.fail("%s: served as %s: %s", desc, ct, bad)
				}
				continue
			}
			rest := vPage(e, desc, body, "<title>", " - code search</title>", fl.name)
			_, rest, _ = strings.Cut(rest, "(<a href=\"/\">about</a>)</small>")
			text, bad := vSafe(rest)
			if bad != "" {
				e.fail("%s: %s", desc, bad)
			}
			var lines []string
			for _, l := range strings.Split(strings.TrimSuffix(fl.text, "\n"), "\n") {
				lines = append(lines, l)
			}
			if fl.text == "" {
				lines = nil
			}
			got := strings.Split(strings.TrimPrefix(text, "\n\n"), "\n")
			for n, l := range lines {
				if want := fmt.Sprintf("%d  %s", n+1, l); n >= len(got) || strings.TrimLeft(got[n], " ") != want {
					e.fail("%s: page says %q, want line %q", desc, text, want)
				}
			}
			e.count("files_shown")
		}
		dirs := []string{dir}
		for _, fl := range files {
			dirs = append(dirs, filepath.Dir(fl.name))
		}
		for _, d := range dirs {
			body, ct, _ := get("/show"+d, "")
			desc := fmt.Sprintf("directory %q", d)
			if !isHTML(ct) {
				continue
			}
			rest := vPage(e, desc, body, "<title>", " - code search</title>", d)
			crumbs, list, _ := strings.Cut(rest, "</b> <small>(<a href=\"/\">about</a>)</small>")
			text, bad := vSafe(crumbs)
			if bad != "" {
				e.fail("%s: %s", desc, bad)
			}
			if strings.TrimPrefix(text, "/") != d {
				e.fail("%s: trail says %q", desc, text)
			}
			text, bad = vSafe(list)
			if bad != "" {
				e.fail("%s: %s", desc, bad)
			}
			ents, _ := os.ReadDir(d)
			want := ""
			for _, x := range ents {
				want += x.Name() + "\n"
			}
			if strings.TrimPrefix(text, "\n\n") != want {
				e.fail("%s: page lists %q want %q", desc, text, want)
			}
			e.count("directories_shown")
		}
		// files that are not text, and paths that do not exist
		for _, raw := range []string{"<html><script>alert(1)</script>\x01", "<script>\x00", "\x00<script>", "<!DOCTYPE HTML>\xff", "<?xml version=\"1.0\"?>\x02<x/>", "\x7fELF<b>", "<svg onload=alert(1)>\x01", " \n<h1>\x03", "plain\x01" + junk(3)} {
			fn := filepath.Join(dir, "bin")
			os.WriteFile(fn, []byte(raw), 0600)
			body, ct, _ := get("/show"+fn, "")
			if isHTML(ct) {
				if !strings.HasPrefix(body, "<!DOCTYPE html>") || body == raw {
					e.fail("file holding %q: served as %q: %q", raw, ct, body)
				}
				rest := vPage(e, "binary file", body, "<title>", " - code search</title>", fn)
				_, rest, _ = strings.Cut(rest, "(<a href=\"/\">about</a>)</small>")
				if _, bad := vSafe(rest); bad != "" {
					e.fail("file holding %q: %s", raw, bad)
				}
			}
			no := fn + junk(2)
			body, ct, _ = get("/show"+no, "")
			if isHTML(ct) {
				if _, bad := vSafe(body); bad != "" {
					e.fail("missing file %q: served as %q: %s", no, ct, bad)
				}
			}
			e.count("raw_files")
		}
		os.RemoveAll(top)
		_ = html.EscapeString
	}
	e.done()
}
