package main

// Contract files (*.spec): line oriented.
//   column 0          top-level directive
//   2-space indent    clause of the current func/extern
//   4-space indent    clause of the current loop
//   deeper            continuation of the previous clause
// Everything after a clause keyword is WhyML text over the Go local names.

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
)

type Clause struct {
	Label, Text string
}

type LoopSpec struct {
	Invs    []Clause
	Variant string
	NoTerm  bool
}

type GhostAt struct {
	Point string // entry | exit | loop K begin|end|before|after|post | call F#K before|after | return K | assign X#K before|after
	Text  string
	used  bool
}

type FuncSpec struct {
	Key      string
	Requires []Clause
	Ensures  []Clause
	Writes   string
	Variant  string
	Loops    map[int]*LoopSpec
	Ghosts   []*GhostAt
	Flags    map[string]string
	GhostPar []string
	Search   map[int]string
	RenameOf map[string]string
	Line     int
	File     string
	Base     []localInfo
}

type Theory struct {
	Name string
	Uses []string
	Text string
}

type Extern struct {
	Key   string
	Flags map[string]string
	Text  string
}

type Unit struct {
	Name     string
	File     string
	Pkgs     []string
	Uses     []string
	Modes    map[string]string // type name -> heap|const|value
	Prefix   map[string]string
	SeqName  map[string]string // go slice/elem type -> suffix
	Nilable  map[string]bool
	Drop     map[string]bool
	Opaque   map[string]string
	Capped   map[string]bool
	Havoc    []string // prefixes of external functions without effect on the modelled state
	Partial  bool     // run-time panics and non-termination are no obligations
	Literals []string // predicates that hold of every string literal of the source
	Globals  map[string]string
	Externs  map[string]*Extern
	Funcs    []*FuncSpec
	ByKey    map[string]*FuncSpec
	Raw      string // unit-level WhyML emitted after the types
	RawUses  string
	Includes []string
	Theories []*Theory
}

func (u *Unit) parse(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var curF *FuncSpec
	var curE *Extern
	var curL *LoopSpec
	var last *string
	var raw bool
	var th *Theory
	lineRE := regexp.MustCompile(`^( *)(.*)$`)
	// @eq(x, "literal"): x has exactly these bytes
	eqRE := regexp.MustCompile(`@eq\((\w+), ("[^"]*")\)`)
	data = eqRE.ReplaceAllFunc(data, func(m []byte) []byte {
		g := eqRE.FindSubmatch(m)
		s, err := strconv.Unquote(string(g[2]))
		if err != nil {
			return m
		}
		var b strings.Builder
		fmt.Fprintf(&b, "(lenB %s = %d", g[1], len(s))
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, " /\\ getB %s %d = %d", g[1], i, s[i])
		}
		b.WriteString(")")
		return []byte(b.String())
	})
	for n, line := range strings.Split(string(data), "\n") {
		if raw {
			if line == "endwhy" {
				raw = false
				continue
			}
			if th != nil {
				th.Text += line + "\n"
			} else {
				u.Raw += line + "\n"
			}
			continue
		}
		if strings.TrimSpace(line) == "" || strings.HasPrefix(strings.TrimSpace(line), "#") {
			continue
		}
		m := lineRE.FindStringSubmatch(line)
		ind, text := len(m[1]), m[2]
		bad := func(msg string) error { return fmt.Errorf("%s:%d: %s: %s", file, n+1, msg, line) }
		word, rest, _ := strings.Cut(text, " ")
		rest = strings.TrimSpace(rest)
		switch {
		case ind == 0:
			curF, curE, curL, last = nil, nil, nil, nil
			fs := strings.Fields(rest)
			switch word {
			case "unit":
				u.Name = rest
			case "package":
				u.Pkgs = append(u.Pkgs, rest)
			case "use":
				u.Uses = append(u.Uses, fs...)
			case "include":
				dir := file[:strings.LastIndex(file, "/")+1]
				if err := u.parse(dir + rest); err != nil {
					return err
				}
			case "heap", "const", "value", "unique", "open":
				for _, t := range fs {
					u.Modes[t] = word
				}
			case "prefix":
				u.Prefix[fs[0]] = fs[1]
			case "seq":
				u.SeqName[strings.Join(fs[:len(fs)-1], " ")] = fs[len(fs)-1]
			case "nilable":
				u.Nilable[rest] = true
			case "drop":
				for _, t := range fs {
					u.Drop[t] = true
				}
			case "opaque":
				u.Opaque[fs[0]] = strings.Join(fs[1:], " ")
			case "partial":
				u.Partial = true
			case "literals":
				u.Literals = append(u.Literals, fs...)
			case "havoc":
				u.Havoc = append(u.Havoc, fs...)
			case "capped":
				for _, t := range fs {
					u.Capped[t] = true
				}
			case "global":
				u.Globals[fs[0]] = strings.TrimSpace(strings.TrimPrefix(rest, fs[0]))
			case "why":
				raw = true
				th = nil
				if len(fs) > 0 {
					th = &Theory{Name: fs[0]}
					if len(fs) > 2 && fs[1] == "uses" {
						th.Uses = fs[2:]
					}
					u.Theories = append(u.Theories, th)
				}
			case "extern":
				curE = &Extern{Key: fs[0], Flags: map[string]string{}}
				for _, f := range fs[1:] {
					k, v, _ := strings.Cut(f, "=")
					curE.Flags[k] = v
				}
				u.Externs[curE.Key] = curE
			case "func":
				curF = &FuncSpec{Key: fs[0], Loops: map[int]*LoopSpec{}, Flags: map[string]string{}, Search: map[int]string{}, Line: n + 1, File: file}
				for _, f := range fs[1:] {
					k, v, _ := strings.Cut(f, "=")
					curF.Flags[k] = v
				}
				if _, ok := curF.Flags["closure"]; ok {
					curF.Key += "$lit"
				}
				if u.ByKey[curF.Key] != nil {
					return bad("duplicate func")
				}
				u.Funcs = append(u.Funcs, curF)
				u.ByKey[curF.Key] = curF
			default:
				return bad("unknown directive")
			}
		case ind == 2 && curE != nil:
			curE.Text += text + "\n"
		case ind > 2 && curE != nil:
			curE.Text += "  " + text + "\n"
		case curF == nil:
			return bad("clause outside func")
		case ind == 2 || ind == 4 && curL != nil && (word == "invariant" || word == "variant" || word == "noterm"):
			if ind == 2 {
				curL = nil
			}
			label := ""
			if strings.HasPrefix(rest, "[") {
				if i := strings.Index(rest, "]"); i > 0 {
					label = rest[1:i]
					rest = strings.TrimSpace(rest[i+1:])
				}
			}
			switch word {
			case "requires":
				curF.Requires = append(curF.Requires, Clause{label, rest})
				last = &curF.Requires[len(curF.Requires)-1].Text
			case "ensures":
				curF.Ensures = append(curF.Ensures, Clause{label, rest})
				last = &curF.Ensures[len(curF.Ensures)-1].Text
			case "variant":
				if ind == 4 {
					curL.Variant = rest
					last = &curL.Variant
				} else {
					curF.Variant = rest
					last = &curF.Variant
				}
			case "writes":
				curF.Writes = rest
				last = &curF.Writes
			case "ghostparam":
				curF.GhostPar = append(curF.GhostPar, rest)
				last = &curF.GhostPar[len(curF.GhostPar)-1]
			case "loop":
				k, err := strconv.Atoi(rest)
				if err != nil {
					return bad("loop number")
				}
				curL = &LoopSpec{}
				curF.Loops[k] = curL
				last = nil
			case "invariant":
				curL.Invs = append(curL.Invs, Clause{label, rest})
				last = &curL.Invs[len(curL.Invs)-1].Text
			case "noterm":
				curL.NoTerm = true
				last = nil
			case "at":
				pt, tx, ok := strings.Cut(rest, ":")
				if !ok {
					return bad("missing ':' in at clause")
				}
				g := &GhostAt{Point: strings.Join(strings.Fields(pt), " "), Text: strings.TrimSpace(tx)}
				curF.Ghosts = append(curF.Ghosts, g)
				last = &g.Text
			case "search":
				ks, tx, _ := strings.Cut(rest, " ")
				k, err := strconv.Atoi(ks)
				if err != nil {
					return bad("search number")
				}
				curF.Search[k] = tx
				last = nil
			default:
				return bad("unknown clause")
			}
		default:
			if last == nil {
				return bad("continuation of nothing")
			}
			*last += "\n      " + text
		}
	}
	return nil
}

func newUnit() *Unit {
	return &Unit{Modes: map[string]string{}, Prefix: map[string]string{}, SeqName: map[string]string{}, Nilable: map[string]bool{},
		Drop: map[string]bool{}, Opaque: map[string]string{}, Capped: map[string]bool{}, Globals: map[string]string{},
		Externs: map[string]*Extern{}, ByKey: map[string]*FuncSpec{}}
}
