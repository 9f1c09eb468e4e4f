package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/google/codesearch/index"
)

type vEvent struct {
	mask uint32
	name string
}

// vWatch records every change in dir until stop is called.
func vWatch(dir string) (stop func() []vEvent, err error) {
	fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC | syscall.IN_NONBLOCK)
	if err != nil {
		return nil, err
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_ATTRIB|syscall.IN_CLOSE_WRITE); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	var evs []vEvent
	done := make(chan bool)
	quit := make(chan bool)
	drain := func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := syscall.Read(fd, buf)
			if n <= 0 || err != nil {
				return
			}
			for b := buf[:n]; len(b) >= 16; {
				l := binary.NativeEndian.Uint32(b[12:])
				evs = append(evs, vEvent{binary.NativeEndian.Uint32(b[4:]), strings.TrimRight(string(b[16:16+l]), "\x00")})
				b = b[16+l:]
			}
		}
	}
	go func() {
		for {
			select {
			case <-quit:
				drain()
				syscall.Close(fd)
				close(done)
				return
			case <-time.After(time.Millisecond):
				drain()
			}
		}
	}()
	return func() []vEvent { close(quit); <-done; return evs }, nil
}

func TestVerifC15(t *testing.T) {
	e := vStart(t)
	r := e.r
	top, err := os.MkdirTemp("", "vcrash")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(top)
	bin := filepath.Join(top, "cindex")
	if o, err := exec.Command("go", "build", "-o", bin, "github.com/google/codesearch/cmd/cindex").CombinedOutput(); err != nil {
		t.Fatalf("building cindex: %v\n%s", err, o)
	}
	// does the watch work here?
	wdir := filepath.Join(top, "w")
	os.Mkdir(wdir, 0700)
	watch := false
	if stop, err := vWatch(wdir); err == nil {
		os.WriteFile(filepath.Join(wdir, "x"), []byte("x"), 0600)
		os.Rename(filepath.Join(wdir, "x"), filepath.Join(wdir, "y"))
		watch = len(stop()) >= 4
	}
	if !watch {
		t.Logf("no directory watch here; relying on hard links and content")
	}
	for round := 0; e.more(); round++ {
		base := filepath.Join(top, fmt.Sprint("r", round))
		tree, ixd, tmp := filepath.Join(base, "t"), filepath.Join(base, "ixd"), filepath.Join(base, "tmp")
		for _, d := range []string{tree + "/a", tree + "/b", ixd, tmp} {
			os.MkdirAll(d, 0700)
		}
		master := filepath.Join(ixd, "ix")
		fill := func(dir string, n int) {
			for i := 0; i < n; i++ {
				var b bytes.Buffer
				for k := r.Intn(40); k > 0; k-- {
					for j := 0; j < 60; j++ {
						b.WriteByte(byte(32 + r.Intn(95)))
					}
					b.WriteByte('\n')
				}
				os.WriteFile(filepath.Join(dir, fmt.Sprint("f", r.Intn(100))), b.Bytes(), 0600)
			}
		}
		cmd := func(limit int, args ...string) *exec.Cmd {
			c := exec.Command(bin, args...)
			if limit >= 0 {
				c = exec.Command("sh", append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$@\"", limit), "sh", bin}, args...)...)
			}
			c.Env = append(os.Environ(), "CSEARCHINDEX="+master, "TMPDIR="+tmp)
			return c
		}
		n := 2 + r.Intn(40)
		fill(tree+"/a", n)
		fill(tree+"/b", n)
		if o, err := cmd(-1, tree+"/a", tree+"/b").CombinedOutput(); err != nil {
			e.fail("cindex of a new tree: %v %s", err, o)
		}
		old, err := os.ReadFile(master)
		if err != nil {
			e.fail("no index after cindex: %v", err)
		}
		fill(tree+"/a", 1+r.Intn(n))
		fill(tree+"/b", 1+r.Intn(n))
		argss := [][]string{{tree + "/a"}, {}, {tree}, {tree + "/b", tree + "/a"}, {"-check", tree + "/b"}, {"-check"}, {"-verbose", tree + "/b"}}
		args := argss[r.Intn(len(argss))]
		link := filepath.Join(base, "link")
		restore := func() {
			os.RemoveAll(ixd)
			os.Mkdir(ixd, 0700)
			os.WriteFile(master, old, 0600)
			os.Remove(link)
			if err := os.Link(master, link); err != nil {
				t.Fatal(err)
			}
			if r.Intn(3) == 0 { // leftovers of an earlier attempt that stopped
				os.WriteFile(master+"~", old[:len(old)/2], 0600)
				os.WriteFile(master+"~~", old[:len(old)/3], 0600)
			}
		}
		same := func() string {
			if b, err := os.ReadFile(link); err != nil || !bytes.Equal(b, old) {
				return "the previous index file was written to"
			}
			return ""
		}
		// an undisturbed run
		restore()
		var stop func() []vEvent
		if watch {
			stop, _ = vWatch(ixd)
		}
		start := time.Now()
		o, err := cmd(-1, args...).CombinedOutput()
		took := time.Since(start)
		if err != nil {
			e.fail("cindex %q updating an index: %v %s", args, err, o)
		}
		if s := same(); s != "" {
			e.fail("cindex %q: %s", args, s)
		}
		if stop != nil {
			moved := 0
			for _, ev := range stop() {
				if ev.name != "ix" {
					continue
				}
				switch {
				case ev.mask&syscall.IN_MOVED_TO != 0:
					moved++
				case ev.mask&syscall.IN_ATTRIB != 0 && ev.mask&^syscall.IN_ATTRIB == 0, ev.mask&syscall.IN_CLOSE_WRITE != 0 && moved > 0:
					// link count, or the end of the process
				default:
					e.fail("cindex %q: event %#x on the index file (after %d renames onto it)", args, ev.mask, moved)
				}
			}
			if moved != 1 {
				e.fail("cindex %q: %d renames onto the index file", args, moved)
			}
			e.count("watched_runs")
		}
		fresh, err := os.ReadFile(master)
		if err != nil {
			e.fail("cindex %q: no index afterwards: %v", args, err)
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					e.fail("cindex %q: new index is broken: %v", args, x)
				}
			}()
			ix := index.Open(master)
			if err := ix.Check(); err != nil {
				e.fail("cindex %q: new index is broken: %v", args, err)
			}
		}()
		intact := func(how string, out []byte) {
			if s := same(); s != "" {
				e.fail("cindex %q %s: %s; output %s", args, how, s, out)
			}
			b, err := os.ReadFile(master)
			if err != nil {
				e.fail("cindex %q %s: the index is missing: %v; output %s", args, how, err, out)
			}
			if !bytes.Equal(b, old) && !bytes.Equal(b, fresh) {
				e.fail("cindex %q %s: the index (%d bytes) is neither the previous (%d bytes) nor the complete new one (%d bytes); output %s", args, how, len(b), len(old), len(fresh), out)
			}
		}
		// files cannot grow beyond a limit
		biggest := len(fresh)/512 + 2
		for k := 0; k < 12 && e.more(); k++ {
			restore()
			lim := r.Intn(biggest)
			switch k {
			case 0:
				lim = (len(fresh) - 1) / 512
			case 1:
				lim = 0
			case 2:
				lim = (len(fresh) - 100) / 512
			}
			o, err := cmd(max(lim, 0), args...).CombinedOutput()
			intact(fmt.Sprintf("with files limited to %d bytes (%v)", lim*512, err), o)
			e.count("write_failures")
		}
		// killed at some moment
		for k := 0; k < 12 && e.more(); k++ {
			restore()
			c := cmd(-1, args...)
			if err := c.Start(); err != nil {
				t.Fatal(err)
			}
			time.Sleep(time.Duration(r.Int63n(int64(took) + 1)))
			c.Process.Kill()
			c.Wait()
			intact("killed", nil)
			e.count("kills")
		}
		// the new index cannot be put beside the old one
		restore()
		os.Remove(master + "~")
		os.Remove(master + "~~")
		which := "~"
		if r.Intn(2) == 0 {
			which = "~~"
		}
		os.MkdirAll(master+which+"/x", 0700)
		o, _ = cmd(-1, args...).CombinedOutput()
		intact("with a directory at "+which, o)
		e.count("blocked")
		os.RemoveAll(base)
	}
	e.done()
	_ = rand.Int
}
