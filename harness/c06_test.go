package index

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"testing"
)

// vAccept is the acceptance rule, written independently of the scanner.
func vAccept(data []byte) bool {
	lead := func(c byte) bool { return c >= 0xc0 && c < 0xf8 }
	cont := func(c byte) bool { return c >= 0x80 && c < 0xc0 }
	prev := byte(0)
	line := 0
	for _, c := range data {
		if c == 0 {
			return false
		}
		switch {
		case prev < 0x80: // after a complete character: ASCII or a leading byte
			if !(c < 0x80 || lead(c)) {
				return false
			}
		case cont(prev):
			if !(c < 0x80 || cont(c) || lead(c)) {
				return false
			}
		case lead(prev):
			if !cont(c) {
				return false
			}
		default:
			return false
		}
		prev = c
		line++
		if line > 2000 {
			return false
		}
		if c == '\n' {
			line = 0
		}
	}
	return len(vTris(data)) <= 20000 && len(data) <= 1<<30
}

func vContent(r *rand.Rand) []byte {
	switch r.Intn(14) {
	case 0, 1: // around the line length limit
		n := 1995 + r.Intn(9)
		s := strings.Repeat("short\n", r.Intn(3)) + strings.Repeat("ab", n/2) + strings.Repeat("c", n%2)
		if r.Intn(2) == 0 {
			s += "\n"
		}
		if r.Intn(2) == 0 {
			s += "x\n" + strings.Repeat("y", r.Intn(2010))
		}
		return []byte(s)
	case 2: // around the trigram limit
		want := 19998 + r.Intn(5)
		var b []byte
		seen := map[uint32]bool{}
		col := 0
		for len(seen) < want {
			c := byte(0x20 + r.Intn(95))
			if col > 1000 {
				c = '\n'
				col = 0
			}
			col++
			b = append(b, c)
			if n := len(b); n >= 3 {
				seen[uint32(b[n-3])<<16|uint32(b[n-2])<<8|uint32(b[n-1])] = true
			}
		}
		return b
	case 3: // random bytes, mostly broken
		b := make([]byte, r.Intn(6))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return b
	case 4, 5: // text with one odd byte
		b := []byte(strings.Repeat("héllo 日本\n", 1+r.Intn(20)))
		b[r.Intn(len(b))] = []byte{0, 1, 0x7f, 0x80, 0xbf, 0xc0, 0xf7, 0xf8, 0xff, byte(r.Intn(256))}[r.Intn(10)]
		return b
	case 6: // pairs
		a, b := byte(r.Intn(256)), byte(r.Intn(256))
		pre := []string{"", "a", "\n", "é", "ab"}[r.Intn(5)]
		return append([]byte(pre), a, b)
	case 7: // truncated
		b := []byte(strings.Repeat("日é", 1+r.Intn(4)))
		return b[:r.Intn(len(b)+1)]
	case 8:
		return []byte(strings.Repeat("q", r.Intn(4)))
	case 9: // larger than the input buffer
		if r.Intn(5) == 0 {
			b := []byte(strings.Repeat("some line of text é\n", 60000))
			b = b[:1<<20-3+r.Intn(7)]
			for len(b) > 0 && b[len(b)-1] >= 0x80 {
				b = b[:len(b)-1]
			}
			b = append(b, "xyz"...)
			if r.Intn(3) == 0 {
				b = append(b, byte(r.Intn(256)))
			}
			return b
		}
	}
	return vText(r)
}

type vGenReader struct{ n int }

func (g *vGenReader) Read(p []byte) (int, error) {
	if g.n == 0 {
		return 0, io.EOF
	}
	n := min(len(p), g.n)
	for i := 0; i < n; i++ {
		p[i] = 'a'
		if (g.n-i)%64 == 0 {
			p[i] = '\n'
		}
	}
	g.n -= n
	return n, nil
}

func TestVerifC06(t *testing.T) {
	e := vStart(t)
	r := e.r
	dir := vTmp(t)
	run := func(files []vFile, cap, version int, k int) {
		f := fmt.Sprintf("%s/ix%d", dir, k)
		vBuild(f, nil, files, version, cap, r)
		var ok []vFile
		for _, x := range files {
			if vAccept(x.data) {
				ok = append(ok, x)
				e.count("accepted")
			} else {
				e.count("rejected")
			}
		}
		ix := Open(f)
		defer func() {
			if x := recover(); x != nil {
				e.fail("files %s: panic %v", vDescribe(files), x)
			}
		}()
		if s := vVerify(ix, nil, ok, r, 400); s != "" {
			e.fail("files %s: %s", vDescribe(files), s)
		}
		vClose(ix)
		os.Remove(f)
		e.count("indexes")
	}
	// every byte pair at the start of a file and inside one
	for part := 0; part < 4; part++ {
		var files []vFile
		for a := 0; a < 256; a++ {
			for b := part * 64; b < part*64+64; b++ {
				d := []byte{byte(a), byte(b)}
				if part%2 == int(e.seed)%2 {
					d = append([]byte("x"), d...)
				}
				files = append(files, vFile{fmt.Sprintf("/f%05d", len(files)), d})
			}
		}
		run(files, 0, 2, part)
	}
	// the size limit
	for _, d := range []int{0, 1} {
		f := fmt.Sprintf("%s/big", dir)
		ix := Create(f)
		ix.Add("/big", &vGenReader{1<<30 + d})
		ix.Flush()
		x := Open(f)
		if got := x.Name(0).String() == "/big"; got != (d == 0) {
			e.fail("file of %d bytes: indexed=%v", 1<<30+d, got)
		}
		vClose(x)
		os.Remove(f)
		e.count("big_files")
	}
	for k := 10; e.more(); k++ {
		names := vRandNames(r, r.Intn(25)+1, 2)
		var files []vFile
		for _, s := range names {
			if isValidName(s) {
				files = append(files, vFile{s, vContent(r)})
			}
		}
		run(files, 0, 2, k)
	}
	e.done()
}
