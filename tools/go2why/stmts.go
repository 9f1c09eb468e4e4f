package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

func (t *Tr) block(list []ast.Stmt, tail string) string {
	return t.blockF(list, func() string { return tail })
}

// blockTailRet translates list followed by the values of the return statement (no exception needed).
func (t *Tr) blockTailRet(list []ast.Stmt, ret *ast.ReturnStmt) string {
	return t.blockF(list, func() string { return t.retValue(ret) })
}

// blockF translates a statement list; tail gives the final expression (translated in the inner scope).
func (t *Tr) blockF(list []ast.Stmt, tail func() string) string {
	ns := len(t.scope)
	nb := len(t.rebound)
	defer func() {
		t.scope = t.scope[:ns]
		for i := len(t.rebound) - 1; i >= nb; i-- {
			r := t.rebound[i]
			t.env[r.o] = r.b
			t.pendDead = append(t.pendDead, r.o)
		}
		t.rebound = t.rebound[:nb]
	}()
	var b strings.Builder
	closes := 0
	for _, s := range list {
		t.stmtCalls = nil
		before := len(t.spec0().Ghosts)
		_ = before
		txt, open := t.stmt(s)
		for _, o := range t.pendDead {
			if b := t.env[o]; b != nil && b.kind == bPath && b.dead == "" {
				t.rebind(o, &Bind{kind: bPath, lv: b.lv, dead: "a block that changed it"})
			}
		}
		t.pendDead = nil
		pre, post := t.callGhosts()
		if txt == "" && pre == "" && post == "" {
			continue
		}
		b.WriteString(pre)
		if open {
			b.WriteString(txt)
			b.WriteString("\n")
			b.WriteString(post)
			continue
		}
		if txt != "" {
			b.WriteString(txt)
			b.WriteString(";\n")
		}
		b.WriteString(post)
	}
	_ = closes
	tl := tail()
	if tl == "" {
		tl = "()"
	}
	return "begin " + b.String() + tl + " end"
}

func (t *Tr) spec0() *FuncSpec {
	if t.spec == nil {
		return &FuncSpec{}
	}
	return t.spec
}

func ghostText(s string) string {
	s = strings.TrimSpace(s)
	if strings.HasSuffix(s, " in") || strings.HasSuffix(s, ";") {
		return s + "\n"
	}
	return s + ";\n"
}

// ghostAt returns the ghost code for an exact insertion point.
func (t *Tr) ghostAt(point string) string {
	var b strings.Builder
	for _, g := range t.spec0().Ghosts {
		if g.Point == point {
			g.used = true
			b.WriteString(ghostText(t.fix(g.Text)))
		}
	}
	return b.String()
}

func (t *Tr) callGhosts() (pre, post string) {
	for _, c := range t.stmtCalls {
		pre += t.ghostAt("call " + c + " before")
		post += t.ghostAt("call " + c + " after")
		f, _, _ := strings.Cut(c, "#")
		pre += t.ghostAt("call " + f + "#* before")
		post += t.ghostAt("call " + f + "#* after")
	}
	t.stmtCalls = nil
	return
}

var identRE = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_']*`)

// fix applies the identifier substitution to a piece of contract text.
func (t *Tr) fix(s string) string {
	var in map[string]string
	if len(t.inl) > 0 {
		in = t.inl[len(t.inl)-1].names
	}
	if len(t.subst) == 0 && len(in) == 0 {
		return s
	}
	return identRE.ReplaceAllStringFunc(s, func(w string) string {
		if r, ok := in[w]; ok {
			return r
		}
		if r, ok := t.subst[w]; ok {
			return r
		}
		return w
	})
}

func (t *Tr) pushRef(name string, typ types.Type) {
	t.rootTyp[name] = typ
	t.scope = append(t.scope, name)
}

// declare binds a new local variable to value v; returns the "let" prefix.
func (t *Tr) declare(o types.Object, v string, capped bool) string {
	if o == nil {
		return fmt.Sprintf("let _ = %s in", v)
	}
	if o.Name() == "_" {
		return fmt.Sprintf("let _ = %s in", v)
	}
	n := t.declName(o)
	if len(t.inl) == 0 {
		t.locals = append(t.locals, localInfo{o.Name(), tname(o.Type())})
	}
	if t.assigned[o] {
		t.env[o] = &Bind{kind: bRef, name: n, capped: capped}
		t.pushRef(n, o.Type())
		return fmt.Sprintf("let ref %s = %s in", n, v)
	}
	t.env[o] = &Bind{kind: bVal, name: n, capped: capped}
	return fmt.Sprintf("let %s = %s in", n, v)
}

func (t *Tr) localCapped(o types.Object) bool {
	if t.fn == nil {
		return false
	}
	return t.u.Capped[t.fn.Pkg().Name()+"."+funcKey(t.fn)+"."+o.Name()]
}

// isRefPtr reports whether typ is a pointer in ref mode (aliases an lvalue or owned).
func (t *Tr) isRefPtr(typ types.Type) bool {
	p, ok := typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch t.ty.mode(p.Elem()) {
	case "heap", "const", "value":
		return false
	}
	return true
}

// freeze makes the index expressions of a path immutable.
func (t *Tr) freeze(l *LV, pre *[]string) *LV {
	l = l.clone()
	for i := range l.sels {
		s := &l.sels[i]
		if s.index != "" && !isNumber(s.index) {
			n := t.fresh("fz")
			*pre = append(*pre, fmt.Sprintf("let %s = %s in", n, s.index))
			s.index = n
		}
	}
	return l
}

func isNumber(s string) bool {
	_, ok := new(big.Int).SetString(s, 10)
	return ok
}

// define handles x := e for one variable; returns let prefix.
func (t *Tr) define(id *ast.Ident, e ast.Expr) (string, bool) {
	o := t.pkg.Info.Defs[id]
	if o == nil { // redeclared: plain assignment
		if id.Name == "_" {
			return fmt.Sprintf("let _ = %s in", t.expr(e).s), true
		}
		return t.assign1(id, e), false
	}
	// function values
	if _, ok := o.Type().Underlying().(*types.Signature); ok {
		if lit, ok := unparen(e).(*ast.FuncLit); ok {
			t.env[o] = &Bind{kind: bFunc, name: id.Name, lit: lit}
			return "", true
		}
		if fs := t.funcRef(e); fs != nil {
			n := t.declName(o)
			t.env[o] = &Bind{kind: bFunc, name: n, funcs: []*types.Func{fs}}
			if t.assigned[o] {
				t.pushRef(n, o.Type())
				return fmt.Sprintf("let ref %s = 0 in", n), true
			}
			return fmt.Sprintf("let %s = 0 in", n), true
		}
	}
	if base := emptyWindow(t.pkg, e); base != nil {
		// x := s[:0]: x grows over the elements of s
		if b := t.env[t.obj(base)]; b != nil && (b.kind == bRef || b.kind == bVal) && !b.capped && !directlyAssigned(t.pkg, t.fnBody, t.obj(base).(*types.Var)) && appended(t.pkg, t.fnBody, o) {
			var pre []string
			lv := t.lvalue(base, &pre)
			n := t.declName(o) + "_len"
			suf := t.ty.why(o.Type())[3:]
			w := lv.clone()
			w.sels = append(w.sels, Sel{lo: "0", hi: n, suf: suf})
			w.typ = o.Type()
			t.env[o] = &Bind{kind: bPath, lv: w, win: n, winLV: lv}
			t.pushRef(n, types.Typ[types.Int])
			return fmt.Sprintf("let ref %s = 0 in", n), true
		}
	}
	if sliceAlias(t.pkg, t.fnBody, o, e) {
		if pathAssigned(t, e) && !assignedLast(t, o, e) {
			unsup("%s shares the elements of %s, which is reassigned", id.Name, t.src(e))
		}
		var pre []string
		lv := t.freeze(t.lvalue(unparen(e), &pre), &pre)
		if !lv.capped {
			t.env[o] = &Bind{kind: bPath, lv: lv}
			return strings.Join(pre, " "), true
		}
		unsup("%s shares the elements of %s", id.Name, t.src(e))
	}
	if t.isRefPtr(o.Type()) {
		r := unparen(e)
		if u, ok := r.(*ast.UnaryExpr); ok && u.Op == token.AND && !isComposite(u.X) {
			var pre []string
			lv := t.freeze(t.lvalueBase(u.X, &pre), &pre)
			t.env[o] = &Bind{kind: bPath, lv: lv}
			return strings.Join(pre, " "), true
		}
		switch r.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
			if !t.isNil(r) {
				var pre []string
				lv := t.freeze(t.lvalueBase(r, &pre), &pre)
				t.env[o] = &Bind{kind: bPath, lv: lv}
				return strings.Join(pre, " "), true
			}
		}
	}
	save := t.wantCapped
	t.wantCapped = t.localCapped(o)
	ex := t.exprTo(e, o.Type(), t.wantCapped)
	if !t.wantCapped && ex.capped {
		ex = t.exprTo(e, o.Type(), false)
	}
	t.wantCapped = save
	return t.declare(o, ex.s, ex.capped), true
}

// emptyWindow returns s if e is s[:0].
func emptyWindow(p *Pkg, e ast.Expr) *ast.Ident {
	x, ok := unparen(e).(*ast.SliceExpr)
	if !ok || x.High == nil || x.Slice3 {
		return nil
	}
	zero := func(e ast.Expr) bool {
		tv, ok := p.Info.Types[e]
		return ok && tv.Value != nil && tv.Value.ExactString() == "0"
	}
	if !zero(x.High) || x.Low != nil && !zero(x.Low) {
		return nil
	}
	id, ok := unparen(x.X).(*ast.Ident)
	if !ok {
		return nil
	}
	if tv, ok := p.Info.Types[x.X]; !ok {
		return nil
	} else if _, ok := tv.Type.Underlying().(*types.Slice); !ok {
		return nil
	}
	return id
}

// appended reports whether body has an assignment o = append(o, ...).
func appended(p *Pkg, body ast.Node, o types.Object) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
			if id, ok := a.Lhs[0].(*ast.Ident); ok && p.Info.Uses[id] == o {
				if c, ok := unparen(a.Rhs[0]).(*ast.CallExpr); ok {
					if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "append" {
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

func (t *Tr) funcRef(e ast.Expr) *types.Func {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		f, _ := t.pkg.Info.Uses[x].(*types.Func)
		return f
	case *ast.SelectorExpr:
		if t.pkg.Info.Selections[x] == nil {
			f, _ := t.pkg.Info.Uses[x.Sel].(*types.Func)
			return f
		}
	}
	return nil
}

// assign1 handles l = e.
func (t *Tr) assign1(l ast.Expr, e ast.Expr) string {
	l = unparen(l)
	if v, ok := t.globalVar(l); ok && t.u.Globals[v.Name()] == "skip" && !hasCall(t.pkg, e) {
		t.dropped["assignments to "+v.Name()] = true
		return "()"
	}
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			return fmt.Sprintf("let _ = %s in ()", t.expr(e).s)
		}
		o := t.obj(id)
		if b := t.env[o]; b != nil {
			if b.kind == bFunc {
				f := t.funcRef(e)
				if f == nil || b.lit != nil {
					unsup("assignment of function value %s", id.Name)
				}
				k := -1
				for i, g := range b.funcs {
					if g == f {
						k = i
					}
				}
				if k < 0 {
					k = len(b.funcs)
					b.funcs = append(b.funcs, f)
				}
				t.noteWrite(&LV{root: b.name})
				return fmt.Sprintf("%s <- %d", b.name, k)
			}
			if b.kind == bPath && b.win != "" {
				c, ok := unparen(e).(*ast.CallExpr)
				if !ok || len(c.Args) != 2 || c.Ellipsis.IsValid() || t.src(c.Fun) != "append" || t.src(c.Args[0]) != id.Name {
					unsup("assignment to %s, which shares the elements of another slice", id.Name)
				}
				suf := t.ty.why(o.Type())[3:]
				v := t.exprTo(c.Args[1], o.Type().Underlying().(*types.Slice).Elem(), false)
				n := t.fresh("w")
				x := b.winLV.clone()
				x.sels = append(x.sels, Sel{index: b.win, suf: suf})
				t.noteWrite(&LV{root: b.win})
				return fmt.Sprintf("begin let %s = %s in assert { [@expl:appending stays within the reused array] %s < len%s %s }; %s; %s <- %s + 1 end", n, v.s, b.win, suf, atom(b.winLV.read()), t.assignLV(x, n), b.win, b.win)
			}
			if b.kind == bPath && t.isRefPtr(o.Type()) {
				unsup("reassignment of pointer alias %s", id.Name)
			}
		}
	}
	if ie, ok := l.(*ast.IndexExpr); ok {
		if m, ok := t.typeOf(ie.X).Underlying().(*types.Map); ok {
			var pre []string
			lv := t.lvalueBase(ie.X, &pre)
			nm := t.ty.why(t.typeOf(ie.X))
			v := t.exprTo(e, m.Elem(), false)
			return t.withPre(pre, t.assignLV(lv, fmt.Sprintf("(pput_%s %s %s %s)", nm, atom(lv.read()), atom(t.plain(ie.Index)), atom(v.s))))
		}
	}
	var pre []string
	lv := t.lvalue(l, &pre)
	save := t.wantCapped
	t.wantCapped = lv.capped
	ex := t.exprTo(e, t.typeOf(l), lv.capped)
	t.wantCapped = save
	if ex.eff && len(lv.sels) > 0 {
		n := t.fresh("w")
		// evaluate the right-hand side before reading the base path
		return t.withPre(append(pre, fmt.Sprintf("let %s = %s in", n, ex.s)), t.assignLV(lv, n))
	}
	return t.withPre(pre, t.assignLV(lv, ex.s))
}

// assignVal assigns an already evaluated name to an lvalue expression.
func (t *Tr) assignVal(l ast.Expr, v string) string {
	l = unparen(l)
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return "()"
	}
	var pre []string
	lv := t.lvalue(l, &pre)
	if lv.capped {
		v = fmt.Sprintf("(ofplain%s %s)", t.ty.why(t.typeOf(l))[3:], v)
	}
	return t.withPre(pre, t.assignLV(lv, v))
}

func lineNote(t *Tr, s ast.Stmt) string { return "" }

// stmt translates one statement. open=true means the text is a "let ... in" prefix.
func (t *Tr) stmt(s ast.Stmt) (string, bool) {
	switch x := s.(type) {
	case nil, *ast.EmptyStmt:
		return "", false
	case *ast.BlockStmt:
		saved := t.stmtCalls
		r := t.block(x.List, "()")
		t.stmtCalls = saved
		return r, false
	case *ast.ExprStmt:
		return t.exprStmt(x.X), false
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			return "", false
		}
		var out []string
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, id := range vs.Names {
				o := t.pkg.Info.Defs[id]
				if o == nil || id.Name == "_" {
					if i < len(vs.Values) {
						out = append(out, fmt.Sprintf("let _ = %s in", t.expr(vs.Values[i]).s))
					}
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					d, _ := t.define(id, vs.Values[i])
					out = append(out, d)
					continue
				}
				if len(vs.Values) > 0 {
					unsup("var declaration with tuple value")
				}
				if _, ok := o.Type().Underlying().(*types.Signature); ok {
					t.env[o] = &Bind{kind: bFunc, name: t.declName(o)}
					out = append(out, fmt.Sprintf("let ref %s = 0 in", t.env[o].name))
					t.pushRef(t.env[o].name, o.Type())
					continue
				}
				if t.localCapped(o) {
					suf := t.ty.why(o.Type())[3:]
					out = append(out, t.declare(o, fmt.Sprintf("{c%s_a = empty%s; c%s_n = 0}", suf, suf, suf), true))
					continue
				}
				out = append(out, t.declare(o, t.ty.zero(o.Type()), false))
			}
		}
		return strings.Join(out, "\n"), true
	case *ast.AssignStmt:
		t.noteCall("=" + t.src(x.Lhs[0])) // a place for ghost code
		return t.assignStmt(x)
	case *ast.IncDecStmt:
		t.noteCall("=" + t.src(x.X))
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		var pre []string
		lv := t.lvalue(x.X, &pre)
		return t.withPre(pre, t.assignLV(lv, t.arith(op, x.X, nil, t.typeOf(x.X), lv.read(), "1"))), false
	case *ast.IfStmt:
		return t.ifStmt(x), false
	case *ast.ForStmt:
		return t.forStmt(x, ""), false
	case *ast.RangeStmt:
		return t.rangeStmt(x, ""), false
	case *ast.SwitchStmt:
		return t.switchStmt(x, ""), false
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.ForStmt:
			return t.forStmt(y, x.Label.Name), false
		case *ast.RangeStmt:
			return t.rangeStmt(y, x.Label.Name), false
		case *ast.SwitchStmt:
			return t.switchStmt(y, x.Label.Name), false
		}
		unsup("label %s", x.Label.Name)
	case *ast.ReturnStmt:
		return t.returnStmt(x), false
	case *ast.BranchStmt:
		return t.branch(x), false
	case *ast.DeferStmt:
		f := t.callee(x.Call)
		if f != nil {
			if e := t.u.Externs[externKey(f)]; e != nil {
				if _, ok := e.Flags["skip"]; ok {
					t.externs[e.Key] = true
					return "", false
				}
			}
		}
		if f != nil && t.isHavoc(f) && !anyCallArg(t.pkg, x.Call) {
			t.externs[externKey(f)+" (no effect on the modelled state, arbitrary result)"] = true
			return "", false
		}
		unsup("defer %s", t.src(x.Call))
	}
	unsup("statement %T: %s", s, t.src(s))
	return "", false
}

func (t *Tr) exprStmt(e ast.Expr) string {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok {
		unsup("expression statement %s", t.src(e))
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if o := t.pkg.Info.Uses[id]; o != nil {
			if b := t.env[o]; b != nil && b.kind == bFunc && b.lit != nil {
				return t.inlineLit(c, b.lit)
			}
		}
	}
	ex := t.call(c)
	if ex.s == "()" {
		return ""
	}
	tv := t.pkg.Info.Types[c]
	unit := tv.Type == nil || tv.IsVoid()
	if tp, ok := tv.Type.(*types.Tuple); ok && tp.Len() == 0 {
		unit = true
	}
	if unit || strings.HasPrefix(ex.s, "(x_fatal") || strings.HasPrefix(ex.s, "(x_panic") || strings.HasPrefix(ex.s, "(x_forbid") {
		return ex.s
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "clear" {
		return ex.s
	}
	return fmt.Sprintf("(let _ = %s in ())", ex.s)
}

// inlineLit inlines a call of a local function literal with no results.
func (t *Tr) inlineLit(c *ast.CallExpr, lit *ast.FuncLit) string {
	if lit.Type.Results != nil && len(lit.Type.Results.List) > 0 {
		unsup("call of function literal with results")
	}
	if countReturns(lit.Body) > 0 {
		unsup("return inside an inlined function literal")
	}
	for o := range assignedVars(t.pkg, lit.Body) {
		t.assigned[o] = true
	}
	ctx := &inlCtx{}
	t.inl = append(t.inl, ctx)
	defer func() { t.inl = t.inl[:len(t.inl)-1] }()
	var pre []string
	i := 0
	for _, f := range lit.Type.Params.List {
		for _, id := range f.Names {
			o := t.pkg.Info.Defs[id]
			ex := t.exprTo(c.Args[i], o.Type(), false)
			i++
			n := t.fresh(t.whyName(o.Name()))
			t.env[o] = &Bind{kind: bVal, name: n}
			if t.assigned[o] {
				t.env[o].kind = bRef
				t.rootTyp[n] = o.Type()
				pre = append(pre, fmt.Sprintf("let ref %s = %s in", n, ex.s))
			} else {
				pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
			}
		}
	}
	return t.withPre(pre, t.block(lit.Body.List, "()"))
}

func (t *Tr) assignStmt(x *ast.AssignStmt) (string, bool) {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE { // op-assign
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
		var pre []string
		lv := t.lvalue(x.Lhs[0], &pre)
		typ := t.typeOf(x.Lhs[0])
		if isString(typ) {
			return t.withPre(pre, t.assignLV(lv, fmt.Sprintf("(catB %s %s)", atom(lv.read()), atom(t.plain(x.Rhs[0]))))), false
		}
		ex := t.expr(x.Rhs[0])
		if ex.eff {
			n := t.fresh("op")
			pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
			ex.s = n
		}
		return t.withPre(pre, t.assignLV(lv, t.arith(op, x.Lhs[0], x.Rhs[0], typ, lv.read(), ex.s))), false
	}
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		if x.Tok == token.DEFINE {
			return t.define(x.Lhs[0].(*ast.Ident), x.Rhs[0])
		}
		if id, ok := unparen(x.Lhs[0]).(*ast.Ident); ok {
			o := t.obj(id)
			u, isu := unparen(x.Rhs[0]).(*ast.UnaryExpr)
			if b := t.env[o]; b != nil && b.kind == bPath && b.win == "" && t.isRefPtr(o.Type()) && isu && u.Op == token.AND && !isComposite(u.X) {
				var pre []string
				lv := t.freeze(t.lvalueBase(u.X, &pre), &pre)
				t.rebind(o, &Bind{kind: bPath, lv: lv})
				return strings.Join(pre, " "), true
			}
		}
		return t.assign1(x.Lhs[0], x.Rhs[0]), false
	}
	// a, b = f()  |  v, ok = m[k]
	if len(x.Rhs) == 1 {
		var names []string
		var typs []types.Type
		var head string
		switch r := unparen(x.Rhs[0]).(type) {
		case *ast.CallExpr:
			tp, ok := t.typeOf(r).(*types.Tuple)
			if !ok || tp.Len() != len(x.Lhs) {
				unsup("tuple assignment %s", t.src(x))
			}
			ex := t.call(r)
			for i := range x.Lhs {
				names = append(names, t.fresh("tp"))
				typs = append(typs, tp.At(i).Type())
			}
			head = fmt.Sprintf("let (%s) = %s in", strings.Join(names, ", "), ex.s)
		case *ast.IndexExpr:
			m, ok := t.typeOf(r.X).Underlying().(*types.Map)
			if !ok {
				unsup("comma-ok on %s", t.src(r))
			}
			nm := t.ty.why(t.typeOf(r.X))
			mv, kv := t.fresh("mp"), t.fresh("mk")
			names = []string{t.fresh("tp"), t.fresh("tp")}
			typs = []types.Type{m.Elem(), types.Typ[types.Bool]}
			head = fmt.Sprintf("let %s = %s in let %s = %s in let %s = (lookup_%s %s %s) in let %s = (has_%s %s %s) in",
				mv, t.expr(r.X).s, kv, t.plain(r.Index), names[0], nm, mv, kv, names[1], nm, mv, kv)
		default:
			unsup("tuple assignment %s", t.src(x))
		}
		if x.Tok == token.DEFINE {
			out := []string{head}
			var assigns []string
			for i, l := range x.Lhs {
				id := l.(*ast.Ident)
				if id.Name == "_" {
					continue
				}
				if o := t.pkg.Info.Defs[id]; o != nil {
					v := names[i]
					capd := t.localCapped(o)
					if capd {
						v = fmt.Sprintf("(ofplain%s %s)", t.ty.why(o.Type())[3:], v)
					}
					out = append(out, t.declare(o, v, capd))
				} else {
					assigns = append(assigns, t.assignVal(id, names[i])+";")
				}
			}
			return strings.Join(append(out, assigns...), "\n"), true
		}
		out := head
		for i, l := range x.Lhs {
			out += " " + t.assignVal(l, names[i]) + ";"
		}
		return "(" + out + " ())", false
	}
	// parallel assignment
	if x.Tok == token.DEFINE {
		allNew := true
		for _, l := range x.Lhs {
			id := l.(*ast.Ident)
			if t.pkg.Info.Defs[id] == nil && id.Name != "_" {
				allNew = false
			}
		}
		if !allNew {
			unsup("mixed parallel definition %s", t.src(x))
		}
		var out []string
		for i, l := range x.Lhs {
			d, _ := t.define(l.(*ast.Ident), x.Rhs[i])
			out = append(out, d)
		}
		return strings.Join(out, "\n"), true
	}
	// Two slices that trade places from here to the end of the function: each name now means the other array.
	if u, v := sliceSwap(t.pkg, x); u != nil && t.env[u] != nil && t.env[v] != nil {
		top := false
		if b, ok := t.fnBody.(*ast.BlockStmt); ok && len(t.inl) == 0 {
			for _, s := range b.List {
				top = top || s == ast.Stmt(x)
			}
		}
		bu, bv := t.env[u], t.env[v]
		if !top || bu.kind != bRef || bv.kind != bRef || bu.capped || bv.capped {
			unsup("swap of slices %s", t.src(x))
		}
		t.env[u], t.env[v] = bv, bu
		return "()", false
	}
	// swap of pointer aliases
	aliasSwap := true
	for _, l := range x.Lhs {
		id, ok := unparen(l).(*ast.Ident)
		if !ok {
			aliasSwap = false
			break
		}
		b := t.env[t.obj(id)]
		if b == nil || b.kind != bPath || !t.isRefPtr(t.typeOf(l)) {
			aliasSwap = false
		}
	}
	if aliasSwap {
		var bs []*Bind
		for _, r := range x.Rhs {
			id, ok := unparen(r).(*ast.Ident)
			if !ok {
				unsup("swap of pointer aliases")
			}
			b := t.env[t.obj(id)]
			if b == nil || b.kind != bPath || b.dead != "" {
				unsup("swap of pointer aliases")
			}
			bs = append(bs, b)
		}
		for i, l := range x.Lhs {
			t.rebind(t.obj(unparen(l).(*ast.Ident)), bs[i])
		}
		return "()", false
	}
	var pre, names []string
	var lvs []*LV
	for i, l := range x.Lhs {
		if id, ok := unparen(l).(*ast.Ident); ok && id.Name == "_" {
			lvs = append(lvs, nil)
		} else {
			lv := t.freeze(t.lvalue(l, &pre), &pre)
			lvs = append(lvs, lv)
		}
		_ = i
	}
	for i, r := range x.Rhs {
		n := t.fresh("pa")
		var ex Ex
		if lvs[i] != nil {
			ex = t.exprTo(r, t.typeOf(x.Lhs[i]), lvs[i].capped)
		} else {
			ex = t.expr(r)
		}
		pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
		names = append(names, n)
	}
	body := ""
	for i := range lvs {
		if lvs[i] != nil {
			body += t.assignLV(lvs[i], names[i]) + "; "
		}
	}
	return "(" + strings.Join(pre, " ") + " " + body + "())", false
}

func (t *Tr) ifStmt(x *ast.IfStmt) string {
	if x.Init != nil {
		y := *x
		y.Init = nil
		return t.block([]ast.Stmt{x.Init, &y}, "()")
	}
	if v := t.constVal(x.Cond); v != nil {
		if v.String() == "false" {
			if x.Else != nil {
				s, _ := t.stmt(x.Else)
				return s
			}
			return ""
		}
		if v.String() == "true" {
			return t.block(x.Body.List, "()")
		}
	}
	c := t.expr(x.Cond)
	calls := t.stmtCalls
	pre, post := t.callGhostsOf(calls)
	a := t.block(x.Body.List, "()")
	b := "()"
	if x.Else != nil {
		b, _ = t.stmt(x.Else)
		if b == "" {
			b = "()"
		}
	}
	t.stmtCalls = nil
	if pre != "" || post != "" {
		n := t.fresh("c")
		return fmt.Sprintf("begin %s let %s = %s in\n%s %sif %s then %s\nelse %s end", pre, n, c.s, post, t.ifSP, n, a, b)
	}
	return fmt.Sprintf("%sif %s then %s\nelse %s", t.ifSP, c.s, a, b)
}

func (t *Tr) callGhostsOf(calls []string) (string, string) {
	t.stmtCalls = calls
	return t.callGhosts()
}

// ---------- loops ----------

func (t *Tr) newLoop() (int, *LoopSpec) {
	t.nloop++
	k := t.nloop
	ls := t.spec0().Loops[k]
	if len(t.inl) > 0 {
		// loops of inlined helpers share the numbering of the enclosing function
	}
	return k, ls
}

var snapRE = regexp.MustCompile(`\b([A-Za-z_][A-Za-z0-9_']*)_L(\d+)\b`)

// snapshots emits "let ghost x_Lk = x in" for the snapshots contracts mention.
func (t *Tr) snapshots(k int, extra map[string]bool) string {
	want := map[string]bool{}
	for _, m := range snapRE.FindAllStringSubmatch(t.specText, -1) {
		if m[2] == fmt.Sprint(k) {
			want[m[1]] = true
		}
	}
	for n := range extra {
		want[n] = true
	}
	var out strings.Builder
	for _, n := range sortedKeys(want) {
		fmt.Fprintf(&out, "let ghost %s_L%d = %s in\n", n, k, t.fix(n))
	}
	return out.String()
}

func clauseAttr(c Clause, def string) string {
	l := c.Label
	if l == "" {
		l = def
	}
	return "[@expl:" + l + "]"
}

// loop assembles a while loop around already translated pieces.
func (t *Tr) loop(k int, ls *LoopSpec, label string, cond func() string, body func() string, post func() string, autoInv []string, autoVariant string, afterAssume string) string {
	saved := t.bodyWrites
	savedCalls := t.stmtCalls
	t.bodyWrites = map[string]bool{}
	lc := &loopCtx{brk: fmt.Sprintf("Brk%d", k), cnt: fmt.Sprintf("Cnt%d", k), label: label, inlDepth: len(t.inl)}
	t.loops = append(t.loops, lc)
	t.stmtCalls = nil
	c := cond()
	cpre, cpost := t.callGhosts()
	if cpre != "" || cpost != "" {
		c = fmt.Sprintf("(%s let c_%d = %s in %s c_%d)", cpre, k, c, cpost, k)
	}
	bd := body()
	t.loops = t.loops[:len(t.loops)-1]
	ps := post()
	if pp, pq := t.callGhosts(); pp != "" || pq != "" {
		ps = pp + ps + ";" + pq
	}
	writes := t.bodyWrites
	t.bodyWrites = saved
	if t.bodyWrites == nil {
		t.bodyWrites = map[string]bool{}
	}
	for w := range writes {
		t.bodyWrites[w] = true
	}
	t.stmtCalls = savedCalls
	// frames: fields of written record variables that are not written
	extra := map[string]bool{}
	var inv strings.Builder
	roots := map[string]map[string]bool{}
	for w := range writes {
		r, f, _ := strings.Cut(w, "\x00")
		if roots[r] == nil {
			roots[r] = map[string]bool{}
		}
		roots[r][f] = true
	}
	for _, r := range sortedKeys(roots) {
		fs := roots[r]
		if fs["*"] || !t.inScope(r) {
			continue
		}
		typ := t.rootTyp[r]
		if typ == nil {
			continue
		}
		tt := typ
		if p, ok := tt.Underlying().(*types.Pointer); ok {
			tt = p.Elem()
		}
		if _, ok := tt.Underlying().(*types.Struct); !ok || t.ty.u.Opaque[sname(tt)] != "" {
			continue
		}
		rec := t.ty.recOf(tt)
		for _, f := range rec.Fields {
			if !fs[f.Why] {
				extra[r] = true
				fmt.Fprintf(&inv, "  invariant { [@expl:loop %d frame] %s.%s = %s_L%d.%s }\n", k, r, f.Why, r, k, f.Why)
			}
		}
	}
	for _, a := range autoInv {
		fmt.Fprintf(&inv, "  invariant { [@expl:loop %d range] %s }\n", k, a)
	}
	if ls != nil {
		for i, c := range ls.Invs {
			fmt.Fprintf(&inv, "  invariant { %s %s }\n", clauseAttr(c, fmt.Sprintf("loop %d invariant %d", k, i+1)), t.fix(c.Text))
		}
	}
	variant := autoVariant
	if ls != nil && ls.Variant != "" {
		variant = t.fix(ls.Variant)
	}
	noterm, fuel := "", ""
	if ls != nil && ls.NoTerm || variant == "" && t.u.Partial {
		// partial correctness: the loop is assumed to end
		fuel = t.fresh("fuel")
		variant = fuel
		t.externs[fmt.Sprintf("termination of loop %d of %s", k, t.spec.Key)] = true
		noterm = "x_tick " + fuel + ";\n"
	}
	if variant != "" {
		fmt.Fprintf(&inv, "  variant { %s }\n", variant)
	}
	// machine-range facts for the written variables
	var rng []string
	for _, r := range sortedKeys(roots) {
		if !t.inScope(r) {
			continue
		}
		typ := t.rootTyp[r]
		if typ == nil {
			continue
		}
		if s := t.ty.rngText(typ, r); s != "" {
			rng = append(rng, s)
		}
		for _, b := range t.env {
			if b.name == r && b.capped {
				suf := t.ty.why(typ)[3:]
				rng = append(rng, fmt.Sprintf("0 <= %s.c%s_n <= len%s %s.c%s_a <= 0x3fffffffffffffff", r, suf, suf, r, suf))
				break
			}
		}
	}
	assume := ""
	if len(rng) > 0 {
		assume = "assume { " + strings.Join(rng, " /\\ ") + " }; "
	}
	if lc.usedC {
		t.excs = append(t.excs, "exception "+lc.cnt)
		bd = fmt.Sprintf("(try %s with %s -> () end)", bd, lc.cnt)
	}
	gb, ge := t.ghostAt(fmt.Sprintf("loop %d begin", k)), t.ghostAt(fmt.Sprintf("loop %d end", k))
	gp := t.ghostAt(fmt.Sprintf("loop %d post", k))
	var w strings.Builder
	fmt.Fprintf(&w, "while (%s%s) do\n%s  begin\n%s%s%s;\n%s%s%s () end\ndone", assume, c, inv.String(), noterm, gb, bd, ge, semi(ps), gp)
	out := w.String()
	if lc.usedB {
		t.excs = append(t.excs, "exception "+lc.brk)
		out = fmt.Sprintf("(try %s\nwith %s -> () end)", out, lc.brk)
	}
	before, after := t.ghostAt(fmt.Sprintf("loop %d before", k)), t.ghostAt(fmt.Sprintf("loop %d after", k))
	if fuel != "" {
		before = "let ghost ref " + fuel + " = any int in\n" + before
	}
	return fmt.Sprintf("begin\n%s%s%s;\n%s%s () end", before, t.snapshots(k, extra), out, assume, after)
}

func semi(s string) string {
	if s == "" || s == "()" {
		return ""
	}
	return s + ";\n"
}

func (t *Tr) inScope(r string) bool {
	for _, s := range t.scope {
		if s == r {
			return true
		}
	}
	return false
}

func (t *Tr) forStmt(x *ast.ForStmt, label string) string {
	t.loopNodes = append(t.loopNodes, x)
	defer func() { t.loopNodes = t.loopNodes[:len(t.loopNodes)-1] }()
	ns := len(t.scope)
	defer func() { t.scope = t.scope[:ns] }()
	if x.Init != nil {
		// the variable counts as assigned if the post statement or the body assigns it (precomputed)
		txt, open := t.stmt(x.Init)
		pre, post := t.callGhosts()
		y := *x
		y.Init = nil
		k := t.nloop + 1
		if a, ok := x.Init.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
			if id, ok := a.Lhs[0].(*ast.Ident); ok {
				if b := t.env[t.pkg.Info.Defs[id]]; b != nil {
					t.counterAlias(k, b.name)
				}
			}
		}
		rest := t.forStmt(&y, label)
		if open {
			return "begin " + pre + txt + "\n" + post + rest + " end"
		}
		return "begin " + pre + semi(txt) + post + rest + " end"
	}
	k, ls := t.newLoop()
	auto := ""
	if (ls == nil || ls.Variant == "") && !t.u.Partial {
		auto = t.guessVariant(x.Cond)
	}
	return t.loop(k, ls, label,
		func() string {
			if x.Cond == nil {
				return "true"
			}
			return t.expr(x.Cond).s
		},
		func() string { return t.block(x.Body.List, "()") },
		func() string {
			if x.Post == nil {
				return ""
			}
			s, _ := t.stmt(x.Post)
			return s
		}, nil, auto, "")
}

// counterAlias lets contracts call the counter of loop k "ixk".
func (t *Tr) counterAlias(k int, name string) {
	if t.subst == nil {
		t.subst = map[string]string{}
	}
	n := fmt.Sprintf("ix%d", k)
	if n != name {
		t.subst[n] = name
	}
	if o := t.spec0().Flags[fmt.Sprintf("counter%d", k)]; o != "" && o != name {
		t.subst[o] = name
	}
}

func (t *Tr) guessVariant(c ast.Expr) string {
	b, ok := unparenE(c).(*ast.BinaryExpr)
	if !ok {
		return ""
	}
	if b.Op == token.LAND {
		if v := t.guessVariant(b.X); v != "" {
			return v
		}
		return t.guessVariant(b.Y)
	}
	pure := func(e ast.Expr) string {
		e = unparen(e)
		if call, ok := e.(*ast.CallExpr); ok {
			if id, ok := unparen(call.Fun).(*ast.Ident); ok && id.Name == "len" {
				if aid, ok := unparen(call.Args[0]).(*ast.Ident); ok {
					at := t.typeOf(call.Args[0])
					if _, ok := at.Underlying().(*types.Array); ok {
						return ""
					}
					bd := t.env[t.obj(aid)]
					if bd != nil && (bd.kind == bRef || bd.kind == bVal) && !bd.capped {
						return fmt.Sprintf("len%s %s", t.ty.why(at)[3:], bd.name)
					}
				}
			}
			return ""
		}
		if id, ok := e.(*ast.Ident); ok {
			if bd := t.env[t.obj(id)]; bd != nil && (bd.kind == bRef || bd.kind == bVal) {
				return bd.name
			}
		}
		if n, ok := t.constInt(e); ok {
			return intLit(n)
		}
		return ""
	}
	l, r := pure(b.X), pure(b.Y)
	if l == "" || r == "" {
		return ""
	}
	switch b.Op {
	case token.LSS, token.LEQ:
		return r + " - " + l
	case token.GTR, token.GEQ:
		return l + " - " + r
	}
	return ""
}

func (t *Tr) rangeStmt(x *ast.RangeStmt, label string) string {
	t.loopNodes = append(t.loopNodes, x)
	defer func() { t.loopNodes = t.loopNodes[:len(t.loopNodes)-1] }()
	ns := len(t.scope)
	defer func() { t.scope = t.scope[:ns] }()
	t.stmtCalls = nil
	var keyO, valO types.Object
	if x.Tok == token.DEFINE {
		if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
			keyO = t.pkg.Info.Defs[id]
		}
		if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
			valO = t.pkg.Info.Defs[id]
		}
	} else if x.Key != nil || x.Value != nil {
		unsup("range with assignment")
	}
	xt := t.typeOf(x.X)
	if _, ok := xt.Underlying().(*types.Map); ok {
		return t.rangeMap(x, label, keyO, valO)
	}
	var head, rg, lim, elem, suf string
	isInt := false
	isStr := false
	var elT types.Type
	if _, _, ok := intKind(xt); ok || isUntypedInt(xt) {
		isInt = true
	}
	if isString(xt) {
		isStr = true
	}
	iter := false
	if _, ok := xt.Underlying().(*types.Signature); ok {
		iter = true
	}
	rx := t.expr(x.X)
	if rx.capped {
		rx = Ex{s: fmt.Sprintf("(pplain%s %s)", t.ty.why(xt)[3:], atom(rx.s)), eff: rx.eff}
	}
	pre, post := t.callGhosts()
	k := t.nloop + 1
	rg = fmt.Sprintf("rg%d", k)
	if isInt {
		lim = rg
		head = fmt.Sprintf("%slet %s = %s in\n%s", pre, rg, rx.s, post)
	} else if isStr {
		unsup("range over string")
	} else {
		if p, ok := xt.Underlying().(*types.Pointer); ok {
			xt = p.Elem()
		}
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			elT = u.Elem()
		case *types.Array:
			elT = u.Elem()
		case *types.Signature:
			if !iter || u.Params().Len() != 1 {
				unsup("range over %s", xt)
			}
			elT = u.Params().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type()
			valO, keyO = keyO, nil
		default:
			unsup("range over %s", xt)
		}
		suf = t.ty.why(xt)
		if !strings.HasPrefix(suf, "seq") {
			unsup("range over %s", xt)
		}
		suf = suf[3:]
		lim = fmt.Sprintf("(len%s %s)", suf, rg)
		head = fmt.Sprintf("%slet %s = %s in\nlet lim%d = plen%s %s in\n%s", pre, rg, rx.s, k, suf, rg, post)
		elem = fmt.Sprintf("(idx%s %s %%s)", suf, rg)
		if _, ok := xt.Underlying().(*types.Slice); ok && valO != nil && elemWritten(t.pkg, x.Body, x.X, x.Key) {
			// the loop writes elements of what it ranges over: they are read as they are when reached
			var lpre []string
			lv := t.lvalueBase(x.X, &lpre)
			if lv.ro || lv.capped || len(lpre) > 0 || pathAssignedIn(t, x.Body, x.X) {
				unsup("range over %s, whose elements are written in the loop", t.src(x.X))
			}
			elem = fmt.Sprintf("(idx%s %s %%s)", suf, atom(lv.read()))
		}
	}
	// counter
	cname := fmt.Sprintf("ix%d", k)
	keyAssigned := keyO != nil && t.assigned[keyO]
	if keyO != nil && !keyAssigned {
		cname = t.declName(keyO)
	}
	t.counterAlias(k, cname)
	if keyO != nil && !keyAssigned {
		t.env[keyO] = &Bind{kind: bRef, name: cname}
		if len(t.inl) == 0 {
			t.locals = append(t.locals, localInfo{keyO.Name(), tname(keyO.Type())})
		}
		t.pushRef(cname, keyO.Type())
	} else {
		t.pushRef(cname, types.Typ[types.Int])
	}
	kk, ls := t.newLoop()
	if kk != k {
		unsup("internal: loop numbering")
	}
	limP := lim
	if !isInt {
		limP = fmt.Sprintf("lim%d", k)
	}
	auto := []string{fmt.Sprintf("0 <= %s <= %s \\/ %s = 0", cname, limP, cname)}
	if !isInt {
		auto = []string{fmt.Sprintf("0 <= %s <= %s", cname, limP)}
	}
	out := t.loop(k, ls, label,
		func() string { return fmt.Sprintf("%s < %s", cname, limP) },
		func() string {
			t.noteWrite(&LV{root: cname})
			var p []string
			if keyAssigned {
				p = append(p, t.declare(keyO, cname, false))
			}
			if valO != nil {
				_ = elT
				p = append(p, t.declare(valO, fmt.Sprintf(elem, cname), false))
			}
			return "begin " + strings.Join(p, " ") + " " + t.block(x.Body.List, "()") + " end"
		},
		func() string { return fmt.Sprintf("%s <- %s + 1", cname, cname) },
		auto, fmt.Sprintf("%s - %s", limP, cname), "")
	return "begin " + head + fmt.Sprintf("let ref %s = 0 in\n", cname) + out + " end"
}

// rangeMap: every key present at the start and not deleted meanwhile is visited once, in any order; a key added meanwhile may or may not be.
func (t *Tr) rangeMap(x *ast.RangeStmt, label string, keyO, valO types.Object) string {
	nm := t.ty.why(t.typeOf(x.X))
	var pre []string
	m := t.lvalueBase(x.X, &pre)
	if gp, gq := t.callGhosts(); gp != "" || gq != "" {
		unsup("ghost code at a call in the operand of a range over a map")
	}
	k, ls := t.newLoop()
	vis, fuel, rg, key := fmt.Sprintf("vis%d", k), fmt.Sprintf("fuel%d", k), fmt.Sprintf("rg%d", k), fmt.Sprintf("key%d", k)
	mt := t.typeOf(x.X).Underlying().(*types.Map)
	head := strings.Join(pre, " ") + fmt.Sprintf("let ghost %s = %s in let ref %s = (any (map %s bool) ensures { forall k. get result k = false }) in let ref %s = (any int ensures { result >= 0 }) in\n", rg, m.read(), vis, t.ty.why(mt.Key()), fuel)
	t.pushRef(vis, nil)
	t.pushRef(fuel, nil)
	out := t.loop(k, ls, label,
		func() string {
			return fmt.Sprintf("(any bool ensures { if result then exists k. mem_%[1]s %[2]s k /\\ get %[3]s k = false else forall k [mem_%[1]s %[4]s k | mem_%[1]s %[2]s k]. mem_%[1]s %[4]s k -> mem_%[1]s %[2]s k -> get %[3]s k = true })", nm, m.read(), vis, rg)
		},
		func() string {
			t.noteWrite(&LV{root: vis})
			t.noteWrite(&LV{root: fuel})
			p := []string{fmt.Sprintf("let %s = (any %s ensures { mem_%s %s result /\\ get %s result = false }) in %s <- (any (map %s bool) ensures { result = set %s %s true }); assume { (* a map has finitely many keys *) %s > 0 }; %s <- %s - 1;", key, t.ty.why(mt.Key()), nm, m.read(), vis, vis, t.ty.why(mt.Key()), vis, key, fuel, fuel, fuel)}
			if keyO != nil {
				p = append(p, t.declare(keyO, key, false))
			}
			if valO != nil {
				p = append(p, t.declare(valO, fmt.Sprintf("(lookup_%s %s %s)", nm, m.read(), key), false))
			}
			return "begin " + strings.Join(p, " ") + " " + t.block(x.Body.List, "()") + " end"
		},
		func() string { return "()" },
		nil, fuel, "")
	return "begin " + head + out + " end"
}

func isUntypedInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedInt
}

// ---------- switch ----------

func (t *Tr) switchStmt(x *ast.SwitchStmt, label string) string {
	if x.Init != nil {
		y := *x
		y.Init = nil
		return t.block([]ast.Stmt{x.Init, &y}, "()")
	}
	t.nswitch++
	lc := &loopCtx{brk: fmt.Sprintf("BrkS%d", t.nswitch), isSwitch: true, label: label, inlDepth: len(t.inl)}
	var head string
	tag := ""
	var tagT types.Type
	if x.Tag != nil {
		tag = t.fresh("sw")
		tagT = t.typeOf(x.Tag)
		head = fmt.Sprintf("let %s = %s in\n", tag, t.plain(x.Tag))
	}
	calls := t.stmtCalls
	gpre, gpost := t.callGhostsOf(calls)
	head = gpre + head + gpost
	t.loops = append(t.loops, lc)
	var clauses []*ast.CaseClause
	for _, s := range x.Body.List {
		clauses = append(clauses, s.(*ast.CaseClause))
	}
	// bodies; a fallthrough body is duplicated into its successor
	var bodyOf func(i int) string
	bodyOf = func(i int) string {
		list := clauses[i].Body
		if n := len(list); n > 0 {
			if b, ok := list[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				// translate the successor's statements in sequence
				return t.block(append(append([]ast.Stmt{}, list[:n-1]...), &ast.BlockStmt{List: fallBody(clauses, i+1)}), "()")
			}
		}
		return t.block(list, "()")
	}
	var conds, bodies []string
	def := ""
	for i, c := range clauses {
		if c.List == nil {
			def = bodyOf(i)
			continue
		}
		var cs []string
		for _, e := range c.List {
			if tag == "" {
				cs = append(cs, atom(t.expr(e).s))
				continue
			}
			v := t.plain(e)
			if isString(tagT) {
				cs = append(cs, fmt.Sprintf("(str_eq %s %s)", tag, atom(v)))
			} else if k, _ := basicKind(tagT); k == types.Bool {
				cs = append(cs, fmt.Sprintf("(bool_eq %s %s)", tag, atom(v)))
			} else {
				cs = append(cs, fmt.Sprintf("(%s = %s)", tag, atom(v)))
			}
		}
		cp, cq := t.callGhosts()
		if cp != "" || cq != "" {
			unsup("ghost code at a call inside a case expression")
		}
		conds = append(conds, strings.Join(cs, " || "))
		bodies = append(bodies, bodyOf(i))
	}
	t.loops = t.loops[:len(t.loops)-1]
	out := def
	if out == "" {
		out = "()"
	}
	for i := len(conds) - 1; i >= 0; i-- {
		out = fmt.Sprintf("if %s then %s\nelse %s", conds[i], bodies[i], out)
	}
	out = "begin " + head + out + " end"
	if lc.usedB {
		t.excs = append(t.excs, "exception "+lc.brk)
		out = fmt.Sprintf("(try %s with %s -> () end)", out, lc.brk)
	}
	t.stmtCalls = nil
	return out
}

func fallBody(cl []*ast.CaseClause, i int) []ast.Stmt {
	list := cl[i].Body
	if n := len(list); n > 0 {
		if b, ok := list[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
			return append(append([]ast.Stmt{}, list[:n-1]...), &ast.BlockStmt{List: fallBody(cl, i+1)})
		}
	}
	return list
}

// ---------- branches and returns ----------

func (t *Tr) branch(x *ast.BranchStmt) string {
	switch x.Tok {
	case token.BREAK, token.CONTINUE:
		for i := len(t.loops) - 1; i >= 0; i-- {
			l := t.loops[i]
			if x.Label != nil && l.label != x.Label.Name {
				continue
			}
			if x.Tok == token.CONTINUE && l.isSwitch {
				continue
			}
			if x.Tok == token.BREAK {
				l.usedB = true
				return "raise " + l.brk
			}
			l.usedC = true
			return "raise " + l.cnt
		}
	}
	unsup("branch %s", t.src(x))
	return ""
}

func (t *Tr) retValue(x *ast.ReturnStmt) string {
	res := t.res
	if len(res) == 0 {
		return "()"
	}
	if len(x.Results) == 0 {
		var xs []string
		for _, r := range res {
			xs = append(xs, r.name)
		}
		if len(xs) == 1 {
			return xs[0]
		}
		return "(" + strings.Join(xs, ", ") + ")"
	}
	if len(x.Results) == 1 && len(res) > 1 {
		return t.expr(x.Results[0]).s
	}
	var xs, pre []string
	for i, e := range x.Results {
		save := t.wantCapped
		t.wantCapped = res[i].capped
		var ex Ex
		if t.isRefPtr(res[i].typ) && !t.isNil(e) {
			if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.AND && !isComposite(u.X) {
				var p []string
				lv := t.lvalueBase(u.X, &p)
				ex = Ex{s: t.withPre(p, lv.read())}
			} else {
				ex = t.exprTo(e, res[i].typ, res[i].capped)
			}
		} else {
			ex = t.exprTo(e, res[i].typ, res[i].capped)
		}
		t.wantCapped = save
		if len(x.Results) > 1 && ex.eff {
			n := t.fresh("rt")
			pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
			ex.s = n
		}
		xs = append(xs, ex.s)
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return t.withPre(pre, "("+strings.Join(xs, ", ")+")")
}

func (t *Tr) returnStmt(x *ast.ReturnStmt) string {
	if n := len(t.inl); n > 0 {
		ctx := t.inl[n-1]
		if ctx.exc == "" {
			unsup("return inside inlined code")
		}
		v := t.retValue(x)
		if v == "()" {
			return "raise " + ctx.exc
		}
		return fmt.Sprintf("raise (%s %s)", ctx.exc, atom(v))
	}
	t.nret++
	k := t.nret
	v := t.retValue(x)
	pre, post := t.callGhosts()
	g := t.ghostAt(fmt.Sprintf("return %d", k)) + t.ghostAt("return *")
	if g == "" && pre == "" && post == "" {
		if len(t.res) == 0 {
			return "return"
		}
		return "return " + v
	}
	if len(t.res) == 0 {
		return "begin " + pre + post + g + " return end"
	}
	// contracts may name the value as "ret" (or ret0, ret1, ...)
	if len(t.res) == 1 {
		return fmt.Sprintf("begin %slet ret = %s in\n%s%s return ret end", pre, v, post, g)
	}
	var ns []string
	for i := range t.res {
		ns = append(ns, fmt.Sprintf("ret%d", i))
	}
	tp := "(" + strings.Join(ns, ", ") + ")"
	return fmt.Sprintf("begin %slet %s = %s in\n%s%s return %s end", pre, tp, v, post, g, tp)
}

// globalVar is the package variable l names.
func (t *Tr) globalVar(l ast.Expr) (*types.Var, bool) {
	var id *ast.Ident
	switch x := l.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	}
	if id == nil {
		return nil, false
	}
	v, ok := t.pkg.Info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Parent() == nil || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return nil, false
	}
	return v, true
}

// sliceSwap recognises "u, v = v, u" for two slices.
func sliceSwap(p *Pkg, x *ast.AssignStmt) (u, v types.Object) {
	if x.Tok != token.ASSIGN || len(x.Lhs) != 2 || len(x.Rhs) != 2 {
		return nil, nil
	}
	var o [4]types.Object
	for i, e := range []ast.Expr{x.Lhs[0], x.Lhs[1], x.Rhs[0], x.Rhs[1]} {
		id, ok := unparen(e).(*ast.Ident)
		if !ok {
			return nil, nil
		}
		o[i] = p.Info.Uses[id]
		if o[i] == nil {
			return nil, nil
		}
		if _, ok := o[i].Type().Underlying().(*types.Slice); !ok {
			return nil, nil
		}
	}
	if o[0] == o[1] || o[0] != o[3] || o[1] != o[2] {
		return nil, nil
	}
	return o[0], o[1]
}

// sliceAlias reports whether o, defined as e, is another name for a slice that is written through o.
func sliceAlias(p *Pkg, body ast.Node, o types.Object, e ast.Expr) bool {
	if _, ok := o.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if v, ok := p.Info.Uses[x].(*types.Var); !ok || v == nil {
			return false
		}
	case *ast.SelectorExpr:
		if p.Info.Selections[x] == nil {
			return false
		}
	case *ast.StarExpr:
	default:
		return false
	}
	if v, ok := o.(*types.Var); !ok || directlyAssigned(p, body, v) {
		return false
	}
	written := false
	elem := func(l ast.Expr) {
		for {
			switch x := unparen(l).(type) {
			case *ast.IndexExpr:
				if id, ok := unparen(x.X).(*ast.Ident); ok && p.Info.Uses[id] == o {
					written = true
				}
				l = x.X
				continue
			case *ast.SelectorExpr:
				if p.Info.Selections[x] != nil {
					l = x.X
					continue
				}
			}
			return
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					elem(l)
				}
			}
		case *ast.IncDecStmt:
			elem(x.X)
		case *ast.CallExpr:
			if f, ok := x.Fun.(*ast.Ident); ok && f.Name == "copy" && len(x.Args) == 2 {
				if id, ok := unparen(x.Args[0]).(*ast.Ident); ok && p.Info.Uses[id] == o {
					written = true
				}
			}
		}
		return true
	})
	return written
}

// pathAssigned reports whether the function assigns e itself.
func pathAssigned(t *Tr, e ast.Expr) bool { return pathAssignedIn(t, t.fnBody, e) }

// elemWritten reports whether body assigns an element of e other than the one at key (a range key, which has been read by then).
func elemWritten(p *Pkg, body ast.Node, e, key ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	found := false
	var keyO types.Object
	if k, ok := key.(*ast.Ident); ok && k.Name != "_" {
		keyO = p.Info.Defs[k]
	}
	if keyO != nil && assignedVars(p, body)[keyO] {
		keyO = nil
	}
	ast.Inspect(body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && a.Tok != token.DEFINE {
			for _, l := range a.Lhs {
				if ix, ok := unparen(l).(*ast.IndexExpr); ok {
					if b, ok := unparen(ix.X).(*ast.Ident); ok && p.Info.Uses[b] == p.Info.Uses[id] {
						if k, ok := unparen(ix.Index).(*ast.Ident); ok && keyO != nil && p.Info.Uses[k] == keyO {
							continue
						}
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

func pathAssignedIn(t *Tr, body ast.Node, e ast.Expr) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && a.Tok != token.DEFINE {
			for _, l := range a.Lhs {
				found = found || t.src(unparen(l)) == t.src(unparen(e))
			}
		}
		return true
	})
	return found
}

// assignedLast reports whether every assignment of e comes, at the top level of the function, after the last use of its alias o.
func assignedLast(t *Tr, o types.Object, e ast.Expr) bool {
	body, ok := t.fnBody.(*ast.BlockStmt)
	if !ok {
		return false
	}
	last := token.NoPos
	ast.Inspect(body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && t.pkg.Info.Uses[id] == o && id.Pos() > last {
			last = id.Pos()
		}
		return true
	})
	top := map[ast.Node]bool{}
	for _, s := range body.List {
		top[s] = true
	}
	good := true
	ast.Inspect(body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && a.Tok != token.DEFINE {
			for _, l := range a.Lhs {
				if t.src(unparen(l)) == t.src(unparen(e)) && (!top[a] || last > a.End()) {
					good = false
				}
			}
		}
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO {
			good = false
		}
		return true
	})
	return good
}
