package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
)

type FnOut struct {
	Key     string      `json:"key"`
	Name    string      `json:"name"`
	File    string      `json:"file"`
	Spec    string      `json:"spec"`
	Line    int         `json:"line"`
	Mlw     string      `json:"mlw,omitempty"`
	Module  string      `json:"module,omitempty"`
	Error   string      `json:"error,omitempty"`
	Callees []string    `json:"callees"`
	Externs []string    `json:"externs"`
	Inlined []string    `json:"inlined"`
	Dropped []string    `json:"dropped"`
	Loops   int         `json:"loops"`
	Locals  []localInfo `json:"locals"`
	Src     string      `json:"src"`
	Unused  []string    `json:"unused_ghosts,omitempty"`
	text    string
}

func newTr(u *Unit, ld *Loader, ty *Types, cache map[*types.Func]*Mod) *Tr {
	return &Tr{u: u, ld: ld, ty: ty, env: map[types.Object]*Bind{}, names: map[string]int{}, ncall: map[string]int{}, litIx: map[string]string{},
		callees: map[*types.Func]bool{}, externs: map[string]bool{}, dropped: map[string]bool{}, globals: map[string]bool{}, rootTyp: map[string]types.Type{},
		inlined: map[*types.Func]bool{}, modCache: cache, assigned: map[types.Object]bool{}, subst: map[string]string{}}
}

type sigInfo struct {
	params []string // "(ref p: t)" or "(p: t)"
	names  []string // WhyML parameter names
	refs   []string
	resT   string
	resN   []string
	frames []string // frame ensures for modified records
	rngReq []string // typing facts of the parameters
	rngEns []string // typing facts of results and modified params
	writes []string
}

func (t *Tr) whyParamName(v *types.Var, i int) string {
	n := v.Name()
	if n == "" || n == "_" {
		return fmt.Sprintf("arg%d_", i)
	}
	return t.whyName(n)
}

// signature builds the WhyML signature of f, shared by its definition and its callers.
func (t *Tr) signature(f *types.Func, sp *FuncSpec) *sigInfo {
	si := &sigInfo{}
	m := t.mods(f)
	sig := f.Type().(*types.Signature)
	for i, v := range formals(f) {
		n := t.whyParamName(v, i)
		wt := t.ty.why(v.Type())
		capd := t.u.Capped[sp.Key+"."+v.Name()]
		if capd {
			wt = "cap" + wt[3:]
		}
		si.names = append(si.names, n)
		if m.refParam(v) {
			si.params = append(si.params, fmt.Sprintf("(ref %s: %s)", n, wt))
			si.refs = append(si.refs, n)
			si.writes = append(si.writes, n)
			fs := m.fieldWhy(t, v)
			if !(len(fs) == 1 && fs[0] == "*") {
				has := map[string]bool{}
				for _, x := range fs {
					has[x] = true
				}
				if !has["*"] {
					rec := t.ty.recOf(v.Type())
					for _, fl := range rec.Fields {
						if !has[fl.Why] {
							si.frames = append(si.frames, fmt.Sprintf("%s.%s = old %s.%s", n, fl.Why, n, fl.Why))
						}
					}
				}
			}
			if s := t.ty.rngText(v.Type(), n); s != "" {
				si.rngEns = append(si.rngEns, s)
			}
		} else {
			si.params = append(si.params, fmt.Sprintf("(%s: %s)", n, wt))
		}
		if capd {
			si.rngReq = append(si.rngReq, fmt.Sprintf("0 <= %s.c%s_n <= len%s %s.c%s_a <= 0x3fffffffffffffff", n, wt[3:], wt[3:], n, wt[3:]))
		} else if s := t.ty.rngText(v.Type(), n); s != "" {
			si.rngReq = append(si.rngReq, s)
		} else if strings.HasPrefix(wt, "seq") {
			si.rngReq = append(si.rngReq, fmt.Sprintf("len%s %s <= 0x3fffffffffffffff", wt[3:], n))
		}
	}
	for _, g := range sp.GhostPar {
		if !strings.HasPrefix(g, "(") {
			g = "(ghost " + g + ")"
		}
		si.params = append(si.params, g)
	}
	rs := sig.Results()
	if sp.lit() {
		rs = nil
	}
	var rts []string
	for i := 0; i < rs.Len(); i++ {
		r := rs.At(i)
		wt := t.ty.why(r.Type())
		n := r.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("res%d", i)
		} else {
			n = t.whyName(n)
		}
		capd := t.u.Capped[sp.Key+"."+fmt.Sprintf("result%d", i)]
		if capd {
			wt = "cap" + wt[3:]
			si.rngEns = append(si.rngEns, fmt.Sprintf("0 <= %s.c%s_n <= len%s %s.c%s_a <= 0x3fffffffffffffff", n, wt[3:], wt[3:], n, wt[3:]))
		} else if s := t.ty.rngText(r.Type(), n); s != "" {
			si.rngEns = append(si.rngEns, s)
		}
		rts = append(rts, wt)
		si.resN = append(si.resN, n)
	}
	switch len(rts) {
	case 0:
		si.resT = "unit"
	case 1:
		si.resT = rts[0]
	default:
		si.resT = "(" + strings.Join(rts, ", ") + ")"
	}
	for h := range m.heaps {
		si.writes = append(si.writes, "h_"+h, "alloc_"+h)
	}
	for g := range m.globals {
		si.writes = append(si.writes, "g_"+g)
	}
	if sp.Writes != "" {
		si.writes = append(si.writes, sp.Writes)
	}
	sort.Strings(si.writes)
	for _, c := range sp.Ensures {
		for _, g := range oldGlobal.FindAllStringSubmatch(c.Text, -1) {
			if !slices.Contains(si.writes, g[1]) && !strings.Contains(sp.Writes, g[1]) {
				unsup("contract of %s speaks of the old %s but the function does not write it", sp.Key, g[1])
			}
		}
	}
	if len(si.params) == 0 {
		si.params = []string{"()"}
	}
	return si
}

var oldGlobal = regexp.MustCompile(`old\s+(g_\w+)`)

func (si *sigInfo) wrapRes(text string) string {
	switch len(si.resN) {
	case 0:
		return text
	case 1:
		return fmt.Sprintf("let %s = result in %s", si.resN[0], text)
	}
	return fmt.Sprintf("let (%s) = result in %s", strings.Join(si.resN, ", "), text)
}

func (t *Tr) contractText(si *sigInfo, sp *FuncSpec, forVal bool) string {
	var b strings.Builder
	for i, c := range sp.Requires {
		fmt.Fprintf(&b, "    requires { %s %s }\n", clauseAttr(c, fmt.Sprintf("precondition %d of %s", i+1, sp.Key)), c.Text)
	}
	for i, c := range sp.Ensures {
		fmt.Fprintf(&b, "    ensures { %s %s }\n", clauseAttr(c, fmt.Sprintf("postcondition %d", i+1)), si.wrapRes(c.Text))
	}
	for _, f := range si.frames {
		fmt.Fprintf(&b, "    ensures { [@expl:frame] %s }\n", f)
	}
	if _, ok := sp.Flags["noterm"]; ok && !forVal {
		t.externs["termination of "+sp.Key] = true
		b.WriteString("    diverges\n")
	}
	if forVal {
		if len(si.rngEns) > 0 {
			fmt.Fprintf(&b, "    ensures { %s }\n", si.wrapRes(strings.Join(si.rngEns, " /\\ ")))
		}
		if len(si.writes) > 0 {
			fmt.Fprintf(&b, "    writes { %s }\n", strings.Join(si.writes, ", "))
		}
	}
	return b.String()
}

func (t *Tr) valDecl(f *types.Func, sp *FuncSpec) string {
	si := t.signature(f, sp)
	return fmt.Sprintf("  val %s %s : %s\n%s", whyFuncName(sp.Key), strings.Join(si.params, " "), si.resT, t.contractText(si, sp, true))
}

func collectSpecText(sp *FuncSpec) string {
	var b strings.Builder
	for _, l := range sp.Loops {
		for _, c := range l.Invs {
			b.WriteString(c.Text + "\n")
		}
		b.WriteString(l.Variant + "\n")
	}
	for _, g := range sp.Ghosts {
		b.WriteString(g.Text + "\n")
	}
	return b.String()
}

// function translates f's body under its contract.
func (t *Tr) function(p *Pkg, f *types.Func, sp *FuncSpec) string {
	fd := p.Decls[f]
	if fd == nil || fd.Body == nil {
		unsup("no body")
	}
	fdBody := fd.Body
	if sp.lit() {
		fdBody = closureBody(fd)
		if fdBody == nil {
			unsup("%s does not just return a function", sp.Key)
		}
	}
	t.pkg, t.fn, t.spec = p, f, sp
	t.fnBody = fdBody
	t.specText = collectSpecText(sp)
	t.searchPred = sp.Search
	for o := range assignedVars(p, fdBody) {
		t.assigned[o] = true
	}
	si := t.signature(f, sp)
	m := t.mods(f)
	var head strings.Builder
	for i, v := range formals(f) {
		n := si.names[i]
		t.names[n]++
		capd := t.u.Capped[sp.Key+"."+v.Name()]
		if m.refParam(v) {
			t.env[v] = &Bind{kind: bRef, name: n, capped: capd}
			t.pushRef(n, v.Type())
			if _, ok := v.Type().Underlying().(*types.Slice); ok && directlyAssigned(p, fdBody, v) {
				if !selfAssigned(p, fdBody, v) {
					unsup("slice parameter %s is both written through and reassigned", v.Name())
				}
				// the body works on its own copy; what the caller sees through its own slice afterwards is arbitrary
				wt := t.ty.why(v.Type())
				fmt.Fprintf(&head, "let ghost %s_in = %s in let ref %s = (let v_ = %s in %s <- (any %s ensures { len%s result = len%s v_ }); v_) in\n", n, n, n, n, n, wt, wt[3:], wt[3:])
				continue
			}
			fmt.Fprintf(&head, "let ghost %s_in = %s in\n", n, n)
			continue
		}
		if t.assigned[v] {
			fmt.Fprintf(&head, "let ghost %s_in = %s in let ref %s = %s in\n", n, n, n, n)
			t.env[v] = &Bind{kind: bRef, name: n, capped: capd}
			t.pushRef(n, v.Type())
			continue
		}
		t.env[v] = &Bind{kind: bVal, name: n, capped: capd}
	}
	if len(si.rngReq) > 0 {
		head.WriteString("assume { " + strings.Join(si.rngReq, " /\\ ") + " };\n")
	}
	sig := f.Type().(*types.Signature)
	for i := 0; i < sig.Results().Len() && !sp.lit(); i++ {
		r := sig.Results().At(i)
		capd := t.u.Capped[sp.Key+"."+fmt.Sprintf("result%d", i)]
		rv := &resVar{obj: r, typ: r.Type(), capped: capd}
		if r.Name() != "" && r.Name() != "_" {
			n := t.declName(r)
			rv.name = n
			t.env[r] = &Bind{kind: bRef, name: n, capped: capd}
			t.pushRef(n, r.Type())
			z := t.ty.zero(r.Type())
			if capd {
				s := t.ty.why(r.Type())[3:]
				z = fmt.Sprintf("{c%s_a = empty%s; c%s_n = 0}", s, s, s)
			}
			fmt.Fprintf(&head, "let ref %s = %s in\n", n, z)
		}
		t.res = append(t.res, rv)
	}
	if fd.Name.Name == "init" && fd.Recv == nil {
		head.WriteString(t.initialGlobals())
	}
	head.WriteString(t.ghostAt("entry"))
	tail := "absurd"
	if sig.Results().Len() == 0 || sp.lit() {
		tail = "()"
		if g := t.ghostAt("exit") + t.ghostAt("return *"); g != "" {
			tail = "begin " + g + " () end"
		}
	}
	t.bodyWrites = map[string]bool{}
	t.ifSP = ""
	if _, ok := sp.Flags["ifsp"]; ok {
		t.ifSP = "[@vc:sp] "
	}
	body := t.block(fdBody.List, tail)
	rec := ""
	if t.callees[f] {
		rec = "rec "
	}
	variant := ""
	if sp.Variant != "" {
		variant = fmt.Sprintf("    variant { %s }\n", sp.Variant)
	}
	_ = ast.Print
	strat := "[@vc:sp] "
	if _, ok := sp.Flags["wp"]; ok || t.ifSP != "" {
		strat = ""
	}
	return fmt.Sprintf("  let %s%s %s : %s\n%s%s  = %s%s%s\n", rec, whyFuncName(sp.Key), strings.Join(si.params, " "), si.resT,
		t.contractText(si, sp, false), variant, strat, head.String(), body)
}

// selfAssigned reports whether every assignment to the slice v gives it a value made from v: an append, a slice of it, or a call it is passed to.
func selfAssigned(p *Pkg, body ast.Node, v types.Object) bool {
	is := func(e ast.Expr) bool {
		id, ok := unparen(e).(*ast.Ident)
		return ok && p.Info.Uses[id] == v
	}
	all := true
	ast.Inspect(body, func(n ast.Node) bool {
		a, ok := n.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for i, l := range a.Lhs {
			if !is(l) {
				continue
			}
			good := false
			if len(a.Lhs) == len(a.Rhs) {
				switch r := unparen(a.Rhs[i]).(type) {
				case *ast.CallExpr:
					good = len(r.Args) > 0 && is(r.Args[0])
				case *ast.SliceExpr:
					good = is(r.X)
				}
			}
			if !good {
				all = false
			}
		}
		return true
	})
	return all
}

func directlyAssigned(p *Pkg, body ast.Node, v types.Object) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok {
			if u, _ := sliceSwap(p, a); u != nil {
				return true
			}
			for _, l := range a.Lhs {
				if id, ok := unparen(l).(*ast.Ident); ok && p.Info.Uses[id] == v {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (t *Tr) externDecl(e *Extern) string { return "" }

// translateUnit translates every contract function of u; only restricts the set when non-empty.
func translateUnit(u *Unit, ld *Loader, only map[string]bool, prelude string) []*FnOut {
	// Pass 1 collects the types every function needs; pass 2 prints. Types are shared by the unit.
	var outs []*FnOut
	ty := newTypes(u)
	cache := map[*types.Func]*Mod{}
	ty.why(types.Typ[types.String])
	for _, n := range u.Uses {
		ty.force(ld, n)
	}
	type res struct {
		out *FnOut
		tr  *Tr
		f   *types.Func
		sp  *FuncSpec
		def string
	}
	var rs []res
	for _, sp := range u.Funcs {
		if _, inl := sp.Flags["inline"]; inl {
			continue
		}
		o := &FnOut{Key: sp.Key, Name: whyFuncName(sp.Key), Callees: []string{}, Externs: []string{}, Inlined: []string{}, Dropped: []string{}}
		o.Spec = filepath.Base(sp.File)
		p, f := ld.findFunc(strings.TrimSuffix(sp.Key, "$lit"))
		if f == nil {
			o.Error = "function not found in the source"
			rs = append(rs, res{o, nil, nil, sp, ""})
			continue
		}
		fd := p.Decls[f]
		pos := ld.fset.Position(fd.Pos())
		o.File, o.Line = pos.Filename, pos.Line
		tr := newTr(u, ld, ty, cache)
		tr.pkg = p
		o.Src = tr.src(fd)
		def := ""
		if _, tru := sp.Flags["trusted"]; !tru {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if us, ok := e.(Unsupported); ok {
							o.Error = us.msg
							return
						}
						panic(e)
					}
				}()
				def = tr.function(p, f, sp)
			}()
		} else {
			o.Error = "trusted"
		}
		o.Loops = tr.nloop
		o.Locals = tr.locals
		for _, g := range sp.Ghosts {
			if !g.used && o.Error == "" && !strings.HasSuffix(g.Point, " args") {
				o.Unused = append(o.Unused, g.Point)
			}
		}
		for k := range sp.Loops {
			if k > tr.nloop && o.Error == "" {
				o.Unused = append(o.Unused, fmt.Sprintf("loop %d", k))
			}
		}
		rs = append(rs, res{o, tr, f, sp, def})
	}
	// make sure callee contracts and record types exist before printing the types
	for _, r := range rs {
		if r.f == nil {
			continue
		}
		func() {
			defer func() { recover() }()
			newTr(u, ld, ty, cache).signature(r.f, r.sp)
		}()
	}
	typesText, uses := ty.emit()
	var common strings.Builder
	if u.Partial {
		prelude, typesText = partial(prelude), partial(typesText)
	}
	common.WriteString(prelude)
	common.WriteString(typesText)
	std := "  use int.Int\n  use int.EuclideanDivision\n  use map.Map\n  use Prelude\n" + uses
	common.WriteString("\nmodule Common\n" + std)
	for _, n := range sortedKeys(u.Globals) {
		g := strings.Fields(u.Globals[n])
		if (g[0] == "var" || g[0] == "ro") && !strings.HasPrefix(n, "&") {
			wt := strings.Join(g[1:], " ")
			if g[0] == "ro" {
				fmt.Fprintf(&common, "  val constant g_%s : %s\n", n, wt)
			} else {
				fmt.Fprintf(&common, "  val ref g_%s : %s\n", n, wt)
			}
		}
	}
	common.WriteString(u.Raw)
	for _, k := range sortedKeys(u.Externs) {
		if e := u.Externs[k]; e.Text != "" {
			fmt.Fprintf(&common, "  (* extern %s *)\n", strings.ReplaceAll(k, "(*", "( *"))
			common.WriteString(indent(e.Text))
		}
	}
	common.WriteString("end\n")
	for _, th := range u.Theories {
		common.WriteString("\nmodule " + th.Name + "\n" + std + "  use Common\n")
		for _, x := range th.Uses {
			common.WriteString("  use " + x + "\n")
		}
		common.WriteString(th.Text + "end\n")
	}
	outs = append(outs, &FnOut{Key: "theory", Name: "theory", Module: "Common", text: common.String(), Callees: []string{}, Externs: []string{}, Inlined: []string{}, Dropped: []string{}})
	for _, r := range rs {
		if r.tr != nil && r.out.Error == "" {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if us, ok := e.(Unsupported); ok {
							r.out.Error = us.msg
							return
						}
						panic(e)
					}
				}()
				var b strings.Builder
				b.WriteString(common.String())
				mod := "M_" + r.out.Name
				b.WriteString("\nmodule " + mod + "\n" + std + "  use Common\n")
				for _, x := range strings.Split(r.sp.Flags["use"], ",") {
					if x != "" {
						b.WriteString("  use " + x + "\n")
					}
				}
				for _, l := range r.tr.lits {
					b.WriteString(l)
				}
				seen := map[string]bool{}
				for _, e := range r.tr.excs {
					if !seen[e] {
						b.WriteString("  " + e + "\n")
						seen[e] = true
					}
				}
				for _, c := range sortedFuncs(r.tr.callees) {
					if c == r.f {
						continue
					}
					csp := u.ByKey[c.Pkg().Name()+"."+funcKey(c)]
					b.WriteString(newTr(u, ld, ty, cache).valDecl(c, csp))
				}
				modText := b.String()[len(common.String()):]
				b.WriteString(r.def)
				b.WriteString("end\n")
				// the vacuity probe: the same function with an unprovable postcondition
				b.WriteString(strings.Replace(modText, "module "+mod, "module S_"+r.out.Name, 1))
				b.WriteString(strings.Replace(r.def, "\n", "\n    ensures { [@expl:smoke] false }\n", 1))
				b.WriteString("end\n")
				r.out.text = b.String()
				r.out.Module = mod
			}()
			for _, c := range sortedFuncs(r.tr.callees) {
				r.out.Callees = append(r.out.Callees, c.Pkg().Name()+"."+funcKey(c))
			}
			for _, c := range sortedFuncs(r.tr.inlined) {
				r.out.Inlined = append(r.out.Inlined, c.Pkg().Name()+"."+funcKey(c))
			}
			if u.Partial {
				r.tr.externs["run-time panics end the program and loops end (not obligations in this unit)"] = true
			}
			r.out.Externs = sortedKeys(r.tr.externs)
			r.out.Dropped = sortedKeys(r.tr.dropped)
		}
		if len(only) == 0 || only[r.sp.Key] {
			outs = append(outs, r.out)
		}
	}
	return outs
}

var panicReq = regexp.MustCompile(`^  val .*?requires \{ \[@expl:[a-z -]*\] ([^{}]*) \}`)
var ensRe = regexp.MustCompile(`ensures \{ (\[@[^\]]*\] )?`)

// partial turns the panic obligations of the operations into facts about the executions that go on.
func partial(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		m := panicReq.FindStringSubmatchIndex(l)
		if m == nil || strings.HasPrefix(l, "  val x_") {
			continue
		}
		p := l[m[2]:m[3]]
		if strings.Contains(l, "@expl:integer overflow]") {
			k := strings.Index(l, "requires {")
			l = l[:k] + ensRe.ReplaceAllString(l[m[1]:], "ensures { "+p+" -> ")
		} else {
			k := strings.Index(l, "requires {")
			l = l[:k] + "ensures { " + p + " }" + l[m[1]:]
		}
		ls[i] = l
	}
	return strings.Join(ls, "\n")
}

func indent(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		b.WriteString("  " + l + "\n")
	}
	return b.String()
}

// force instantiates a Go type named "pkg.T" or a basic slice "[]uint32".
func (ty *Types) force(ld *Loader, n string) {
	pre := ""
	for strings.HasPrefix(n, "[]") {
		pre += "[]"
		n = n[2:]
	}
	var t types.Type
	if pk, nm, ok := strings.Cut(n, "."); ok {
		for _, p := range ld.pkgs {
			if p.Types.Name() == pk {
				if o := p.Types.Scope().Lookup(nm); o != nil {
					t = o.Type()
				}
			}
			for _, q := range p.Types.Imports() {
				if o := q.Scope().Lookup(nm); t == nil && q.Name() == pk && o != nil {
					t = o.Type()
				}
			}
		}
	} else if o := types.Universe.Lookup(n); o != nil {
		t = o.Type()
	}
	if t == nil {
		panic(fmt.Sprintf("use %s: unknown type", n))
	}
	for range len(pre) / 2 {
		t = types.NewSlice(t)
	}
	ty.why(t)
}

func (sp *FuncSpec) lit() bool { return strings.HasSuffix(sp.Key, "$lit") }

// closureBody is the body of the function literal that fd, which has no other statement, returns.
func closureBody(fd *ast.FuncDecl) *ast.BlockStmt {
	for _, s := range fd.Body.List {
		r, ok := s.(*ast.ReturnStmt)
		if !ok {
			if inert(s) {
				continue
			}
			return nil
		}
		if len(r.Results) != 1 {
			return nil
		}
		if l, ok := unparen(r.Results[0]).(*ast.FuncLit); ok {
			return l.Body
		}
	}
	return nil
}

// inert reports whether s does nothing.
func inert(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.EmptyStmt:
		return true
	case *ast.BlockStmt:
		for _, y := range x.List {
			if !inert(y) {
				return false
			}
		}
		return true
	case *ast.AssignStmt:
		for i, l := range x.Lhs {
			id, ok := l.(*ast.Ident)
			if !ok || id.Name != "_" || i >= len(x.Rhs) {
				return false
			}
			if _, ok := x.Rhs[i].(*ast.BasicLit); !ok {
				return false
			}
		}
		return true
	case *ast.IfStmt:
		id, ok := x.Cond.(*ast.Ident)
		return ok && id.Name == "false" && x.Init == nil && x.Else == nil
	}
	return false
}
