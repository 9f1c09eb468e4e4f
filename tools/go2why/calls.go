package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func (t *Tr) noteWrite(l *LV) {
	if t.bodyWrites == nil {
		t.bodyWrites = map[string]bool{}
	}
	f := "*"
	for _, s := range l.sels {
		if s.field != nil {
			f = s.field.Why
			break
		}
		if s.field == nil {
			break
		}
	}
	t.bodyWrites[l.root+"\x00"+f] = true
}

func (t *Tr) assignLV(l *LV, v string) string {
	t.noteWrite(l)
	t.killAliases(l, "the slice it points into was replaced")
	return l.write(v)
}

// killAliases ends the aliases of elements of a slice that the write to l may replace.
func (t *Tr) killAliases(l *LV, why string) {
	for o, b := range t.env {
		if b.kind != bPath || b.dead != "" || b.win != "" || b.lv.root != l.root || len(b.lv.sels) <= len(l.sels) {
			continue
		}
		same := true
		for i, s := range l.sels {
			x := b.lv.sels[i]
			if s.field != x.field || (s.index != "") != (x.index != "") {
				same = false
			}
		}
		deref := false
		for _, s := range b.lv.sels[len(l.sels):] {
			if s.index != "" && s.heap == nil && !isArrayLV(s) {
				deref = true
			}
		}
		if same && deref && len(l.sels) > 0 && t.aliasOfPtr(o) {
			t.rebind(o, &Bind{kind: bPath, lv: b.lv, dead: why})
		}
	}
}

func isArrayLV(s Sel) bool { return false }

// aliasOfPtr reports whether o is a pointer variable (a slice variable sharing elements is checked elsewhere).
func (t *Tr) aliasOfPtr(o types.Object) bool {
	_, ok := o.Type().Underlying().(*types.Pointer)
	return ok
}

// rebind changes the meaning of a pointer variable until the end of the current block; after the block it is not used.
func (t *Tr) rebind(o types.Object, b *Bind) {
	for _, n := range t.loopNodes {
		if o.Pos() >= n.Pos() && o.Pos() < n.End() {
			continue
		}
		ast.Inspect(n, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok && t.pkg.Info.Uses[id] == o {
				unsup("pointer %s changes in a loop", o.Name())
			}
			return true
		})
	}
	t.rebound = append(t.rebound, rebinding{o, t.env[o]})
	t.env[o] = b
}

// callee returns the static callee, if any.
func (t *Tr) callee(c *ast.CallExpr) *types.Func {
	fun := unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	switch f := fun.(type) {
	case *ast.Ident:
		if o, ok := t.pkg.Info.Uses[f].(*types.Func); ok {
			return o.Origin()
		}
	case *ast.SelectorExpr:
		if s := t.pkg.Info.Selections[f]; s != nil {
			if o, ok := s.Obj().(*types.Func); ok {
				return o.Origin()
			}
			return nil
		}
		if o, ok := t.pkg.Info.Uses[f.Sel].(*types.Func); ok {
			return o.Origin()
		}
	}
	return nil
}

func externKey(f *types.Func) string {
	if f.Pkg() == nil {
		return funcKey(f)
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			if n, ok := t.(*types.Named); ok {
				return fmt.Sprintf("(*%s.%s).%s", f.Pkg().Name(), n.Obj().Name(), f.Name())
			}
		}
		if n, ok := t.(*types.Named); ok {
			return fmt.Sprintf("(%s.%s).%s", f.Pkg().Name(), n.Obj().Name(), f.Name())
		}
	}
	return f.Pkg().Name() + "." + f.Name()
}

func whyFuncName(key string) string {
	r := strings.NewReplacer("(*", "", "(", "", ")", "", ".", "_", "/", "_", "$", "_")
	return "f_" + r.Replace(key)
}

func (t *Tr) call(c *ast.CallExpr) Ex {
	// conversion
	if tv, ok := t.pkg.Info.Types[c.Fun]; ok && tv.IsType() {
		return t.conversion(c, tv.Type)
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := t.pkg.Info.Uses[id].(*types.Builtin); ok {
			return t.builtin(c, b.Name())
		}
		// function-typed local
		if o := t.pkg.Info.Uses[id]; o != nil {
			if b := t.env[o]; b != nil {
				switch b.kind {
				case bFunc:
					return t.callFuncVar(c, b)
				}
				if e := t.u.Externs["funcvar:"+id.Name]; e != nil {
					return t.callExtern(c, nil, e, "funcvar_"+id.Name)
				}
			}
		}
	}
	f := t.callee(c)
	if f == nil {
		// call through a func-typed field or variable
		k := "funcvar:" + strings.ReplaceAll(t.src(c.Fun), " ", "")
		if i := strings.LastIndex(k, "."); i >= 0 {
			k = "funcvar:" + k[i+1:]
		}
		if e := t.u.Externs[k]; e != nil {
			t.noteCall(strings.TrimPrefix(k, "funcvar:"))
			return t.callExtern(c, nil, e, strings.Replace(k, ":", "_", 1))
		}
		unsup("indirect call %s", t.src(c))
	}
	key := f.Name()
	if f.Pkg() != nil {
		key = f.Pkg().Name() + "." + funcKey(f)
	}
	t.noteCall(f.Name())
	if key == "sort.Search" {
		return t.sortSearch(c)
	}
	if e := t.u.Externs[externKey(f)]; e != nil {
		return t.callExtern(c, f, e, "x_"+strings.TrimPrefix(whyFuncName(externKey(f)), "f_"))
	}
	if e := t.u.Externs[key]; e != nil {
		return t.callExtern(c, f, e, "x_"+strings.TrimPrefix(whyFuncName(key), "f_"))
	}
	if sp := t.u.ByKey[key]; sp != nil && sp.Flags["inline"] == "" {
		if _, skip := sp.Flags["inline"]; !skip {
			return t.callContract(c, f, sp)
		}
	}
	if t.isHavoc(f) {
		return t.havocCall(c, f)
	}
	if f.Pkg() != nil && (f.Pkg().Path() == modPath || strings.HasPrefix(f.Pkg().Path(), modPath+"/")) {
		return t.inlineCall(c, f)
	}
	unsup("call of %s: no contract for external function", externKey(f))
	return Ex{}
}

func (t *Tr) isHavoc(f *types.Func) bool {
	k := externKey(f)
	for _, h := range t.u.Havoc {
		if strings.HasPrefix(k, h) || strings.HasPrefix(k, "("+h) || strings.HasPrefix(k, "(*"+h) {
			return true
		}
	}
	return false
}

func anyCallArg(p *Pkg, c *ast.CallExpr) bool {
	for _, a := range c.Args {
		if hasCall(p, a) {
			return true
		}
	}
	return false
}

// havocCall is a call whose result is arbitrary and that does not touch the modelled state.
func (t *Tr) havocCall(c *ast.CallExpr, f *types.Func) Ex {
	t.externs[externKey(f)+" (no effect on the modelled state, arbitrary result)"] = true
	var pre string
	for _, a := range c.Args {
		if lit, ok := unparen(a).(*ast.FuncLit); ok {
			pre += t.closureCalls(lit)
		} else if hasCall(t.pkg, a) {
			pre += "let _ = " + t.plain(a) + " in "
		}
	}
	res := f.Type().(*types.Signature).Results()
	if sg, ok := t.typeOf(c.Fun).(*types.Signature); ok {
		res = sg.Results() // of the instance, when f is generic
	}
	if res.Len() == 0 {
		return Ex{s: "(" + pre + "())", eff: true}
	}
	var names, rng []string
	for i := 0; i < res.Len(); i++ {
		n := fmt.Sprintf("hv%d", i)
		names = append(names, n)
		if s := t.ty.rngText(res.At(i).Type(), n); s != "" {
			rng = append(rng, s)
		}
	}
	var wt string
	if res.Len() == 1 {
		wt = t.ty.why(res.At(0).Type())
	} else {
		wt = t.ty.why(res)
	}
	ens := ""
	if len(rng) > 0 {
		b := names[0]
		if len(names) > 1 {
			b = "(" + strings.Join(names, ", ") + ")"
		}
		ens = strings.Join(rng, " /\\ ")
		return Ex{s: fmt.Sprintf("(%slet %s = any %s in assume { %s }; %s)", pre, b, wt, ens, b), eff: true}
	}
	return Ex{s: fmt.Sprintf("(%sany %s)", pre, wt), eff: true}
}

func hasCall(p *Pkg, e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if tv, ok := p.Info.Types[c.Fun]; !ok || !tv.IsType() {
				found = true
			}
		}
		return true
	})
	return found
}

func (t *Tr) noteCall(name string) {
	t.ncall[name]++
	t.stmtCalls = append(t.stmtCalls, fmt.Sprintf("%s#%d", name, t.ncall[name]))
}

func (t *Tr) recvExpr(c *ast.CallExpr) ast.Expr {
	if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
		if sel := t.pkg.Info.Selections[s]; sel != nil {
			return s.X
		}
	}
	return nil
}

// args returns all actuals including the receiver, paired with formals.
type argPair struct {
	e    ast.Expr
	form *types.Var
	recv bool
	vari bool // packed variadic
	es   []ast.Expr
}

func (t *Tr) actuals(c *ast.CallExpr, f *types.Func) []argPair {
	sig := f.Type().(*types.Signature)
	var out []argPair
	if r := sig.Recv(); r != nil {
		if re := t.recvExpr(c); re != nil {
			// method expression call T.m(x, ...)?
			if tv, ok := t.pkg.Info.Types[re]; ok && tv.IsType() {
				out = append(out, argPair{e: c.Args[0], form: r, recv: true})
				for i := 0; i < sig.Params().Len(); i++ {
					out = append(out, argPair{e: c.Args[i+1], form: sig.Params().At(i)})
				}
				return out
			}
			out = append(out, argPair{e: re, form: r, recv: true})
		} else {
			unsup("method without receiver")
		}
	}
	n := sig.Params().Len()
	for i := 0; i < n; i++ {
		if sig.Variadic() && i == n-1 {
			if c.Ellipsis.IsValid() {
				out = append(out, argPair{e: c.Args[i], form: sig.Params().At(i)})
			} else {
				out = append(out, argPair{form: sig.Params().At(i), vari: true, es: c.Args[min(i, len(c.Args)):]})
			}
			continue
		}
		out = append(out, argPair{e: c.Args[i], form: sig.Params().At(i)})
	}
	return out
}

// resolveSel handles embedded/promoted receivers only when direct.

func (t *Tr) isRefParam(v *types.Var) bool {
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch t.ty.mode(p.Elem()) {
	case "heap", "const", "value":
		return false
	}
	return true
}

// passArgs builds the argument list; refs are passed by copy-in/copy-out when not plain variables.
func (t *Tr) passArgs(as []argPair, isRef func(i int) bool, fieldsOf func(i int) []string, capd func(i int) bool) (pre []string, args []string, post []string, eff bool) {
	type refArg struct {
		lv  *LV
		idx int
	}
	var refs []refArg
	for i, a := range as {
		if a.vari {
			typ := a.form.Type().(*types.Slice)
			suf := t.ty.why(typ)[3:]
			s := "empty" + suf
			for _, e := range a.es {
				s = fmt.Sprintf("(snoc%s %s %s)", suf, s, atom(t.exprTo(e, typ.Elem(), false).s))
			}
			args = append(args, s)
			continue
		}
		if isRef(i) {
			var lv *LV
			e := unparen(a.e)
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
				lv = t.lvalueBase(u.X, &pre)
			} else if se, ok := e.(*ast.SliceExpr); ok {
				lv = t.windowLV(se, &pre)
			} else {
				lv = t.lvalueBase(e, &pre)
				if _, ok := t.typeOf(e).Underlying().(*types.Pointer); ok {
					lv = t.derefLV(lv, t.typeOf(e))
				}
			}
			for _, r := range refs {
				if overlap(r.lv, lv) {
					unsup("overlapping pointer arguments %s and %s", r.lv.read(), lv.read())
				}
			}
			refs = append(refs, refArg{lv, i})
			if lv.capped && !capd(i) {
				// a plain view of a capped variable: its elements up to its length
				suf := t.ty.why(lv.typ)[3:]
				w := t.fresh("w")
				pre = append(pre, fmt.Sprintf("let %s = %s.c%s_n in", w, atom(lv.read()), suf))
				lv = lv.clone()
				lv.sels = append(lv.sels, Sel{lo: "0", hi: w, suf: suf, arrC: true})
				lv.capped = false
			}
			if len(lv.sels) == 0 && !lv.ro {
				args = append(args, lv.root)
				for _, f := range fieldsOf(i) {
					if t.bodyWrites == nil {
						t.bodyWrites = map[string]bool{}
					}
					t.bodyWrites[lv.root+"\x00"+f] = true
				}
				continue
			}
			n := t.fresh("rf")
			pre = append(pre, fmt.Sprintf("let ref %s = %s in", n, lv.read()))
			args = append(args, n)
			post = append(post, t.assignLV(lv, n)+";")
			continue
		}
		var ex Ex
		if a.recv {
			if _, isPtr := a.form.Type().Underlying().(*types.Pointer); isPtr {
				// pointer receiver passed by value (not modified) or heap/const pointer
				if _, argPtr := t.typeOf(a.e).Underlying().(*types.Pointer); !argPtr {
					var lv *LV = t.lvalueBase(a.e, &pre)
					ex = Ex{s: lv.read(), capped: lv.capped}
				} else {
					ex = t.expr(a.e)
				}
			} else {
				if _, argPtr := t.typeOf(a.e).Underlying().(*types.Pointer); argPtr {
					lv := t.derefLV(t.lvalueBase(a.e, &pre), t.typeOf(a.e))
					ex = Ex{s: lv.read(), capped: lv.capped}
				} else {
					ex = t.expr(a.e)
				}
			}
			if ex.capped && !capd(i) {
				ex = Ex{s: fmt.Sprintf("(pplain%s %s)", t.ty.why(t.typeOf(a.e))[3:], atom(ex.s))}
			}
		} else if u, ok := unparen(a.e).(*ast.UnaryExpr); ok && u.Op == token.AND && !isComposite(u.X) && t.isRefParam(a.form) {
			lv := t.lvalueBase(u.X, &pre)
			ex = Ex{s: lv.read()}
		} else {
			ex = t.exprTo(a.e, a.form.Type(), capd(i))
		}
		if ex.eff && len(as) > 1 {
			n := t.fresh("ar")
			pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
			ex.s = n
		}
		args = append(args, atom(ex.s))
	}
	return pre, args, post, true
}

func isComposite(e ast.Expr) bool {
	_, ok := unparen(e).(*ast.CompositeLit)
	return ok
}

func overlap(a, b *LV) bool {
	if a.root != b.root || a.ro || b.ro {
		return false
	}
	n := min(len(a.sels), len(b.sels))
	for i := 0; i < n; i++ {
		x, y := a.sels[i], b.sels[i]
		if x.field != nil && y.field != nil && x.field.Why != y.field.Why {
			return false
		}
	}
	return true
}

func (t *Tr) finishCall(pre, args, post []string, fname string, void bool) Ex {
	callee := fname
	if len(args) == 0 {
		callee += " ()"
	} else {
		callee += " " + strings.Join(args, " ")
	}
	if len(pre) == 0 && len(post) == 0 {
		return Ex{s: "(" + callee + ")", eff: true}
	}
	if len(post) == 0 {
		return Ex{s: "(" + strings.Join(pre, " ") + " " + callee + ")", eff: true}
	}
	n := t.fresh("rs")
	return Ex{s: fmt.Sprintf("(%s let %s = %s in %s %s)", strings.Join(pre, " "), n, callee, strings.Join(post, " "), n), eff: true}
}

func (t *Tr) callContract(c *ast.CallExpr, f *types.Func, sp *FuncSpec) Ex {
	t.callees[f] = true
	mod := t.mods(f)
	as := t.actuals(c, f)
	forms := formals(f)
	_ = forms
	pf := t.paramVars(f)
	pre, args, post, _ := t.passArgs(as, func(i int) bool { return mod.refParam(pf[i]) },
		func(i int) []string { return mod.fieldWhy(t, pf[i]) },
		func(i int) bool { return t.u.Capped[sp.Key+"."+as[i].form.Name()] })
	t.staleCheck(as, f, pf, func(i int) bool { return mod.refParam(pf[i]) })
	// ghost arguments
	if len(sp.GhostPar) > 0 {
		k := fmt.Sprintf("call %s#%d args", f.Name(), t.ncall[f.Name()])
		var found bool
		if t.spec != nil {
			for _, g := range t.spec.Ghosts {
				if g.Point == k || g.Point == "call "+f.Name()+"#* args" {
					g.used = true
					found = true
					args = append(args, g.Text)
				}
			}
		}
		if !found {
			unsup("no ghost arguments given for call %s", k)
		}
	}
	for h := range mod.heaps {
		t.noteHeap(h)
	}
	for g := range mod.globals {
		t.globals[g] = true
		if t.bodyWrites == nil {
			t.bodyWrites = map[string]bool{}
		}
		t.bodyWrites["g_"+g+"\x00*"] = true
	}
	if t.spec != nil { // ghost text at the call itself, after its arguments
		if g := t.ghostAt(fmt.Sprintf("call %s#%d in", f.Name(), t.ncall[f.Name()])); g != "" {
			pre = append(pre, g)
		}
	}
	return t.finishCall(pre, args, post, whyFuncName(sp.Key), false)
}

func (t *Tr) noteHeap(h string) {
	if t.bodyWrites == nil {
		t.bodyWrites = map[string]bool{}
	}
	t.bodyWrites["h_"+h+"\x00*"] = true
	for o, b := range t.env {
		if b.kind == bPath && b.dead == "" && b.win == "" && b.lv.root == "h_"+h && t.aliasOfPtr(o) {
			for _, s := range b.lv.sels {
				if s.index != "" && s.heap == nil {
					t.rebind(o, &Bind{kind: bPath, lv: b.lv, dead: "a call that may replace the slice it points into"})
					break
				}
			}
		}
	}
}

func formals(f *types.Func) []*types.Var {
	sig := f.Type().(*types.Signature)
	var out []*types.Var
	if sig.Recv() != nil {
		out = append(out, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i))
	}
	return out
}

// paramVars returns the declared parameter objects of f (from its declaration).
func (t *Tr) paramVars(f *types.Func) []*types.Var { return formals(f) }

func (t *Tr) callExtern(c *ast.CallExpr, f *types.Func, e *Extern, name string) Ex {
	t.externs[e.Key] = true
	if _, ok := e.Flags["skip"]; ok {
		// arguments are evaluated only for their bounds obligations when simple; they have no effect
		return Ex{s: "()"}
	}
	if _, ok := e.Flags["fatal"]; ok {
		return Ex{s: "(x_fatal ())", eff: true}
	}
	if _, ok := e.Flags["forbid"]; ok {
		return Ex{s: "(x_forbid ())", eff: true}
	}
	if v, ok := e.Flags["as"]; ok {
		name = v
	}
	if v, ok := e.Flags["fmt"]; ok {
		return t.callFmt(c, e, v)
	}
	var as []argPair
	if f != nil {
		as = t.actuals(c, f)
	} else {
		if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
			if _, ok := e.Flags["recv"]; ok {
				as = append(as, argPair{e: s.X, form: types.NewVar(0, nil, "", t.typeOf(s.X))})
			}
		}
		if _, ok := e.Flags["fn"]; ok {
			as = append(as, argPair{e: c.Fun, form: types.NewVar(0, nil, "", t.typeOf(c.Fun))})
		}
		sig := t.typeOf(c.Fun).Underlying().(*types.Signature)
		for i, a := range c.Args {
			as = append(as, argPair{e: a, form: sig.Params().At(i)})
		}
	}
	if v, ok := e.Flags["args"]; ok { // restrict to the listed argument positions
		var sel []argPair
		for _, p := range strings.Split(v, ",") {
			var k int
			if _, err := fmt.Sscanf(p, "%d", &k); err == nil && k < len(as) {
				sel = append(sel, as[k])
			}
		}
		as = sel
	}
	inout := map[int]bool{}
	if v := e.Flags["inout"]; v != "" {
		for _, p := range strings.Split(v, ",") {
			var k int
			fmt.Sscanf(p, "%d", &k)
			inout[k] = true
		}
	}
	capx := map[int]bool{}
	if v := e.Flags["capped"]; v != "" {
		for _, p := range strings.Split(v, ",") {
			var k int
			fmt.Sscanf(p, "%d", &k)
			capx[k] = true
		}
	}
	pre, args, post, _ := t.passArgs(as, func(i int) bool { return inout[i] }, func(i int) []string { return []string{"*"} }, func(i int) bool { return capx[i] })
	for _, h := range strings.Split(e.Flags["heap"], ",") {
		if h != "" {
			t.noteHeap(h)
		}
	}
	for _, h := range strings.Split(e.Flags["mod"], ",") {
		if h != "" {
			if t.bodyWrites == nil {
				t.bodyWrites = map[string]bool{}
			}
			t.bodyWrites[h+"\x00*"] = true
		}
	}
	if v, ok := e.Flags["extra"]; ok {
		args = append(args, v)
	}
	ex := t.finishCall(pre, args, post, name, false)
	if _, ok := e.Flags["capres"]; ok {
		ex.capped = true
	}
	return ex
}

func (t *Tr) callFuncVar(c *ast.CallExpr, b *Bind) Ex {
	// b holds one of b.funcs, coded 0,1,...
	if b.lit != nil {
		unsup("call of function literal %s", b.name)
	}
	if len(b.funcs) == 0 {
		unsup("call of unknown function value")
	}
	var out string
	for i := len(b.funcs) - 1; i >= 0; i-- {
		f := b.funcs[i]
		e := t.u.Externs[externKey(f)]
		var ex Ex
		if e != nil {
			ex = t.callExtern(c, f, e, "x_"+strings.TrimPrefix(whyFuncName(externKey(f)), "f_"))
		} else if sp := t.u.ByKey[f.Pkg().Name()+"."+funcKey(f)]; sp != nil && f.Type().(*types.Signature).Recv() == nil {
			t.noteCall(f.Name())
			ex = t.callContract(c, f, sp)
		} else {
			unsup("function value %s", externKey(f))
		}
		if out == "" {
			out = ex.s
		} else {
			out = fmt.Sprintf("(if %s = %d then %s else %s)", b.name, i, ex.s, out)
		}
	}
	return Ex{s: out, eff: true}
}

// callFmt models fmt.Fprintf(w, format, args...) as a sequence of writes to the ghost output:
// each literal piece and each argument becomes one call of <prefix>_lit/_str/_int.
func (t *Tr) callFmt(c *ast.CallExpr, e *Extern, prefix string) Ex {
	if len(c.Args) < 2 {
		unsup("fmt call %s", t.src(c))
	}
	v := t.constVal(c.Args[1])
	if v == nil || v.Kind() != constant.String {
		unsup("fmt call without constant format: %s", t.src(c))
	}
	format := constant.StringVal(v)
	w := atom(t.expr(c.Args[0]).s)
	t.bodyWritesAdd(e.Flags["mod"])
	var parts []string
	lit := func(s string) {
		if s != "" {
			parts = append(parts, fmt.Sprintf("%s_lit %s %s;", prefix, w, t.strLit(s)))
		}
	}
	cur := ""
	ai := 2
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			cur += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			unsup("format %q", format)
		}
		if format[i] == '%' {
			cur += "%"
			continue
		}
		lit(cur)
		cur = ""
		star := false
		if format[i] == '*' {
			star = true
			i++
		}
		if star {
			ai++
		}
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			unsup("format %q", format)
		}
		if ai >= len(c.Args) {
			unsup("format %q: missing argument", format)
		}
		a := c.Args[ai]
		ai++
		switch format[i] {
		case 's', 'v':
			at := t.typeOf(a)
			if isString(at) || isByteSlice(at) {
				parts = append(parts, fmt.Sprintf("%s_str %s %s;", prefix, w, atom(t.plain(a))))
			} else if bt, ok := at.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
				parts = append(parts, fmt.Sprintf("%s_int %s 0;", prefix, w))
			} else if !isString(at) && t.u.Partial {
				// the text of some other value
				parts = append(parts, fmt.Sprintf("%s_str %s (any seqB);", prefix, w))
			} else if format[i] == 'v' {
				parts = append(parts, fmt.Sprintf("%s_val %s %s;", prefix, w, atom(t.plain(a))))
			} else {
				unsup("format %q of %s", format, at)
			}
		case 'f', 'g', 'e', 't', 'x', 'c':
			if bt, ok := t.typeOf(a).Underlying().(*types.Basic); !ok || bt.Info()&(types.IsNumeric|types.IsBoolean) == 0 || format[i] == 'c' {
				unsup("format verb %c of %s", format[i], t.typeOf(a))
			}
			parts = append(parts, fmt.Sprintf("%s_int %s 0;", prefix, w))
		case 'd':
			parts = append(parts, fmt.Sprintf("%s_int %s %s;", prefix, w, atom(t.plain(a))))
		default:
			unsup("format verb %c", format[i])
		}
	}
	lit(cur)
	return Ex{s: "(" + strings.Join(parts, " ") + " ())", eff: true}
}

func (t *Tr) bodyWritesAdd(s string) {
	for _, h := range strings.Split(s, ",") {
		if h != "" {
			if t.bodyWrites == nil {
				t.bodyWrites = map[string]bool{}
			}
			t.bodyWrites[h+"\x00*"] = true
		}
	}
}

func isByteSlice(tp types.Type) bool {
	s, ok := tp.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	k, ok := basicKind(s.Elem())
	return ok && k == types.Uint8
}

func (t *Tr) conversion(c *ast.CallExpr, to types.Type) Ex {
	e := c.Args[0]
	from := t.typeOf(e)
	if _, uns, ok := intKind(to); ok {
		_ = uns
		if _, _, ok := intKind(from); !ok {
			unsup("conversion %s", t.src(c))
		}
		a := t.expr(e)
		return Ex{s: t.convInt(a.s, from, to, e), eff: a.eff}
	}
	toStr, fromStr := isString(to), isString(from)
	switch {
	case toStr && fromStr:
		return t.expr(e)
	case toStr && isByteSlice(from):
		a := t.exprRep(e, false)
		if w := t.ty.why(from); w != "seqB" {
			return Ex{s: fmt.Sprintf("(str_of_%s %s)", w[3:], atom(a.s)), eff: a.eff}
		}
		return a
	case isByteSlice(to) && fromStr:
		a := t.exprRep(e, false)
		if w := t.ty.why(to); w != "seqB" {
			return Ex{s: fmt.Sprintf("(bytes_of_%s %s)", w[3:], atom(a.s)), eff: a.eff}
		}
		return a
	case toStr:
		if _, _, ok := intKind(from); ok {
			t.externs["string(rune)"] = true
			return Ex{s: fmt.Sprintf("(string_of_rune %s)", atom(t.expr(e).s)), eff: true}
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			if k, ok := basicKind(s.Elem()); ok && k == types.Int32 {
				t.externs["string([]rune)"] = true
				return Ex{s: fmt.Sprintf("(string_of_runes %s)", atom(t.plain(e))), eff: true}
			}
		}
	}
	if types.Identical(to.Underlying(), from.Underlying()) {
		return t.expr(e)
	}
	if t.isNil(e) {
		return Ex{s: t.ty.zero(to)}
	}
	unsup("conversion %s", t.src(c))
	return Ex{}
}

func (t *Tr) convInt(s string, from, to types.Type, e ast.Expr) string {
	fb, fu, _ := intKind(from)
	tb, tu, _ := intKind(to)
	if e != nil {
		if mb := t.maxBits(e); mb >= 0 {
			lim := tb
			if !tu {
				lim--
			}
			if mb <= lim {
				return s
			}
		}
	}
	if fu == tu && tb >= fb || fu && !tu && tb > fb {
		return s
	}
	return fmt.Sprintf("(conv_%s_%s %s)", kindName(from), kindName(to), atom(s))
}

func (t *Tr) builtin(c *ast.CallExpr, name string) Ex {
	switch name {
	case "len":
		at := t.typeOf(c.Args[0])
		if p, ok := at.Underlying().(*types.Pointer); ok {
			at = p.Elem()
		}
		if a, ok := at.Underlying().(*types.Array); ok {
			return Ex{s: fmt.Sprint(a.Len())}
		}
		if _, ok := at.Underlying().(*types.Map); ok {
			unsup("len of map")
		}
		x := t.expr(c.Args[0])
		suf := t.ty.why(at)[3:]
		if x.capped {
			return Ex{s: fmt.Sprintf("%s.c%s_n", atom(x.s), suf), eff: x.eff}
		}
		return Ex{s: fmt.Sprintf("(plen%s %s)", suf, atom(x.s)), eff: x.eff}
	case "cap":
		x := t.expr(c.Args[0])
		suf := t.ty.why(t.typeOf(c.Args[0]))[3:]
		if x.capped {
			return Ex{s: fmt.Sprintf("(ccap%s %s)", suf, atom(x.s)), eff: true}
		}
		return Ex{s: fmt.Sprintf("(anycap%s %s)", suf, atom(x.s)), eff: true}
	case "append":
		return t.appendCall(c)
	case "make":
		tp := t.typeOf(c)
		switch u := tp.Underlying().(type) {
		case *types.Slice:
			suf := t.ty.why(tp)[3:]
			n := t.expr(c.Args[1])
			z := atom(t.ty.zero(u.Elem()))
			if len(c.Args) == 3 && t.wantCapped {
				cp := t.expr(c.Args[2])
				return Ex{s: fmt.Sprintf("{ c%s_a = make%s %s %s; c%s_n = %s }", suf, suf, atom(cp.s), z, suf, atom(n.s)), eff: true, capped: true}
			}
			if len(c.Args) == 2 && t.wantCapped {
				v := t.fresh("mk")
				return Ex{s: fmt.Sprintf("(let %s = %s in { c%s_a = make%s %s %s; c%s_n = %s })", v, n.s, suf, suf, v, z, suf, v), eff: true, capped: true}
			}
			if len(c.Args) == 3 {
				cp := t.expr(c.Args[2])
				return Ex{s: fmt.Sprintf("(let mk_c = %s in assert { [@expl:make capacity] mk_c >= 0 }; make%s %s %s)", cp.s, suf, atom(n.s), z), eff: true}
			}
			return Ex{s: fmt.Sprintf("(make%s %s %s)", suf, atom(n.s), z), eff: true}
		case *types.Map:
			return Ex{s: "empty_" + t.ty.why(tp)}
		}
		unsup("make %s", tp)
	case "panic":
		if t.u.Partial {
			return Ex{s: "(x_fatal ())", eff: true}
		}
		return Ex{s: "(x_panic ())", eff: true}
	case "min", "max":
		k := kindName(t.typeOf(c))
		_ = k
		s := atom(t.expr(c.Args[0]).s)
		for _, a := range c.Args[1:] {
			s = fmt.Sprintf("(p%s %s %s)", name, s, atom(t.expr(a).s))
		}
		return Ex{s: s, eff: true}
	case "copy":
		var pre []string
		var d *LV
		de := unparen(c.Args[0])
		src := t.exprRep(c.Args[1], false)
		suf := t.ty.why(t.typeOf(c.Args[0]))[3:]
		if se, ok := de.(*ast.SliceExpr); ok && (se.Low != nil || se.High != nil) {
			d = t.windowLV(se, &pre)
		} else {
			d = t.lvalueBase(de, &pre)
		}
		if d.capped {
			w := t.fresh("w")
			pre = append(pre, fmt.Sprintf("let %s = %s.c%s_n in", w, atom(d.read()), suf))
			d = d.clone()
			d.sels = append(d.sels, Sel{lo: "0", hi: w, suf: suf, arrC: true})
			d.capped = false
		}
		v, n := t.fresh("cp"), t.fresh("cn")
		return Ex{s: fmt.Sprintf("(%s let (%s, %s) = copyinto%s %s %s in %s; %s)", strings.Join(pre, " "), v, n, suf, atom(d.read()), atom(src.s), t.assignLV(d, v), n), eff: true}
	case "clear":
		var pre []string
		d := t.lvalueBase(c.Args[0], &pre)
		tp := t.typeOf(c.Args[0])
		if sl, ok := tp.Underlying().(*types.Slice); ok {
			suf := t.ty.why(tp)[3:]
			z := atom(t.ty.zero(sl.Elem()))
			if d.capped {
				return Ex{s: t.withPre(pre, "("+t.assignLV(d, fmt.Sprintf("(cclear%s %s %s)", suf, atom(d.read()), z))+")"), eff: true}
			}
			return Ex{s: t.withPre(pre, "("+t.assignLV(d, fmt.Sprintf("(const%s (plen%s %s) %s)", suf, suf, atom(d.read()), z))+")"), eff: true}
		}
		return Ex{s: t.withPre(pre, "("+t.assignLV(d, fmt.Sprintf("(clear_%s %s)", t.ty.why(tp), atom(d.read())))+")"), eff: true}
	case "delete":
		var pre []string
		d := t.lvalueBase(c.Args[0], &pre)
		return Ex{s: t.withPre(pre, "("+t.assignLV(d, fmt.Sprintf("(del_%s %s %s)", t.ty.why(t.typeOf(c.Args[0])), atom(d.read()), atom(t.plain(c.Args[1]))))+")"), eff: true}
	case "println", "print":
		return Ex{s: "()"}
	}
	unsup("builtin %s", name)
	return Ex{}
}

func (t *Tr) appendCall(c *ast.CallExpr) Ex {
	tp := t.typeOf(c)
	suf := t.ty.why(tp)[3:]
	el := tp.Underlying().(*types.Slice).Elem()
	var base Ex
	if t.isNil(c.Args[0]) {
		base = Ex{s: "nil" + suf}
	} else {
		base = t.expr(c.Args[0])
	}
	var pre []string
	var add string
	if c.Ellipsis.IsValid() {
		a := t.exprTo(c.Args[1], tp, false)
		add = a.s
		if isString(t.typeOf(c.Args[1])) && t.ty.why(tp) != "seqB" {
			add = fmt.Sprintf("(bytes_of_%s %s)", suf, atom(a.s))
		}
		if base.capped {
			return Ex{s: fmt.Sprintf("(cappend%s %s %s)", suf, atom(base.s), atom(add)), eff: true, capped: true}
		}
		return Ex{s: fmt.Sprintf("(cat%s %s %s)", suf, atom(base.s), atom(add)), eff: base.eff || a.eff}
	}
	s := base.s
	eff := base.eff
	if base.capped {
		s = "empty" + suf
	}
	for _, e := range c.Args[1:] {
		var a Ex
		if cl, ok := unparen(e).(*ast.CompositeLit); ok {
			a = t.composite(cl, el)
		} else {
			a = t.exprTo(e, el, false)
		}
		if a.eff {
			n := t.fresh("e")
			pre = append(pre, fmt.Sprintf("let %s = %s in", n, a.s))
			a.s = n
			eff = true
		}
		s = fmt.Sprintf("(snoc%s %s %s)", suf, atom(s), atom(a.s))
	}
	if base.capped {
		return Ex{s: t.withPre(pre, fmt.Sprintf("(cappend%s %s %s)", suf, atom(base.s), s)), eff: true, capped: true}
	}
	return Ex{s: t.withPre(pre, s), eff: eff}
}

// sortSearch is sort.Search(n, f): for an arbitrary index f is shown to compute the predicate the contract
// names, which is shown to be monotone; the result is then where it turns true.
func (t *Tr) sortSearch(c *ast.CallExpr) Ex {
	t.nsearch++
	pred, ok := t.searchPred[t.nsearch]
	if !ok {
		unsup("sort.Search %d has no predicate in the contract", t.nsearch)
	}
	var lit *ast.FuncLit
	switch f := unparen(c.Args[1]).(type) {
	case *ast.FuncLit:
		lit = f
	case *ast.Ident:
		if b := t.env[t.obj(f)]; b != nil && b.kind == bFunc {
			lit = b.lit
		}
	}
	if lit == nil {
		unsup("sort.Search with %s", t.src(c.Args[1]))
	}
	own := map[types.Object]bool{}
	ast.Inspect(lit, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o := t.pkg.Info.Defs[id]; o != nil {
				own[o] = true
			}
		}
		return true
	})
	for o := range assignedVars(t.pkg, lit.Body) {
		t.assigned[o] = true
	}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		var l []ast.Expr
		switch x := n.(type) {
		case *ast.AssignStmt:
			l = x.Lhs
		case *ast.IncDecStmt:
			l = []ast.Expr{x.X}
		}
		for _, e := range l {
			if id, ok := unparen(e).(*ast.Ident); !ok || t.obj(id) != nil && !own[t.obj(id)] {
				unsup("sort.Search function with an effect on %s", t.src(e))
			}
		}
		return true
	})
	nv, sv := t.fresh("srchn"), t.fresh("srchi")
	out := fmt.Sprintf("(let %s = %s in\n", nv, t.exprTo(c.Args[0], types.Typ[types.Int], false).s)
	ctx := &inlCtx{}
	saveRes, saveLoops := t.res, t.loops
	t.inl = append(t.inl, ctx)
	t.loops = nil
	o := t.pkg.Info.Defs[lit.Type.Params.List[0].Names[0]]
	pn := "_"
	if o != nil {
		pn = t.fresh(t.whyName(o.Name()))
		t.env[o] = &Bind{kind: bVal, name: pn}
	}
	ref := ""
	if o != nil && t.assigned[o] {
		t.env[o].kind = bRef
		t.rootTyp[pn] = o.Type()
		ref = "ref "
	}
	t.res = []*resVar{{typ: types.Typ[types.Bool]}}
	ctx.res, ctx.rtyp = t.res, "bool"
	list := lit.Body.List
	var s string
	if last, ok := list[len(list)-1].(*ast.ReturnStmt); ok && countReturns(lit.Body) == 1 {
		s = t.blockTailRet(list[:len(list)-1], last)
	} else {
		ctx.exc = t.newExc("Ret", "bool")
		s = fmt.Sprintf("(try %s with %s rr_ -> rr_ end)", t.block(list, "absurd"), ctx.exc)
	}
	t.inl = t.inl[:len(t.inl)-1]
	t.res, t.loops = saveRes, saveLoops
	out += fmt.Sprintf("if 0 < %s then begin let %s = any_below %s in let srchr = (let %s%s = %s in %s) in assert { [@expl:the search tests its predicate] srchr = True <-> (let i = %s in %s) } end;\n", nv, sv, nv, ref, pn, sv, s, sv, pred)
	out += fmt.Sprintf("assert { [@expl:the predicate searched for is monotone] forall srchj srchk. 0 <= srchj <= srchk < %s -> (let i = srchj in %s) -> (let i = srchk in %s) };\n", nv, pred, pred)
	out += fmt.Sprintf("if 0 <= %s then begin let %s = any_upto %s in assume { (forall i. 0 <= i < %s -> not (%s)) /\\ (%s < %s -> (let i = %s in %s)) }; %s end else 0)", nv, sv, nv, sv, pred, sv, nv, sv, pred, sv)
	return Ex{s: out, eff: true}
}

// closureCalls stands for any number of calls, with any arguments, of a function literal.
func (t *Tr) closureCalls(lit *ast.FuncLit) string {
	if !t.u.Partial {
		unsup("function literal passed to a function without a model")
	}
	for o := range assignedVars(t.pkg, lit.Body) {
		t.assigned[o] = true
	}
	ctx := &inlCtx{}
	saveRes, saveLoops, saveCalls := t.res, t.loops, t.stmtCalls
	t.inl = append(t.inl, ctx)
	t.loops = nil
	pre := ""
	for _, f := range lit.Type.Params.List {
		for _, id := range f.Names {
			o := t.pkg.Info.Defs[id]
			if o == nil {
				continue
			}
			n := t.fresh(t.whyName(o.Name()))
			t.env[o] = &Bind{kind: bVal, name: n}
			ref := ""
			if t.assigned[o] {
				t.env[o].kind = bRef
				t.rootTyp[n] = o.Type()
				ref = "ref "
			}
			pre += fmt.Sprintf("let %s%s = any %s in ", ref, n, t.ty.why(o.Type()))
		}
	}
	t.res = nil
	var typs []string
	if lit.Type.Results != nil {
		for _, f := range lit.Type.Results.List {
			if len(f.Names) > 0 {
				unsup("function literal with named results")
			}
			tp := t.typeOf(f.Type)
			t.res = append(t.res, &resVar{typ: tp})
			typs = append(typs, t.ty.why(tp))
		}
	}
	ctx.res = t.res
	ctx.rtyp = "unit"
	if len(typs) == 1 {
		ctx.rtyp = typs[0]
	} else if len(typs) > 1 {
		ctx.rtyp = "(" + strings.Join(typs, ", ") + ")"
	}
	ctx.exc = t.newExc("Ret", ctx.rtyp)
	var s string
	if len(typs) == 0 {
		s = fmt.Sprintf("(try %s with %s -> () end)", t.block(lit.Body.List, "()"), ctx.exc)
	} else {
		s = fmt.Sprintf("(let _ = (try %s with %s rr_ -> rr_ end) in ())", t.block(lit.Body.List, "absurd"), ctx.exc)
	}
	t.inl = t.inl[:len(t.inl)-1]
	t.res, t.loops, t.stmtCalls = saveRes, saveLoops, saveCalls
	fuel := t.fresh("fuel")
	return fmt.Sprintf("(let ghost ref %s = any int in while any bool do variant { %s } x_tick %s; %s%s done);\n", fuel, fuel, fuel, pre, s)
}

// ---------- inlining of helpers without contracts ----------

func (t *Tr) inlineCall(c *ast.CallExpr, f *types.Func) Ex {
	p := t.ld.pkgs[f.Pkg().Path()]
	if p == nil {
		unsup("package of %s not loaded", f.FullName())
	}
	fd := p.Decls[f]
	if fd == nil || fd.Body == nil {
		unsup("no body for %s", f.FullName())
	}
	for _, x := range t.inl {
		if x.fn == f {
			unsup("recursive inlining of %s (needs a contract)", f.FullName())
		}
	}
	if len(t.inl) > 12 {
		unsup("inlining too deep")
	}
	as := t.actuals(c, f)
	ctx := &inlCtx{fn: f}
	var pre []string
	newB := map[types.Object]*Bind{}
	mod := t.mods(f)
	assigned := assignedVars(p, fd.Body)
	for o := range assigned {
		t.assigned[o] = true
	}
	for _, a := range as {
		o := a.form
		if o.Name() == "" || o.Name() == "_" {
			if a.e != nil {
				ex := t.expr(a.e)
				if ex.eff {
					pre = append(pre, fmt.Sprintf("let _ = %s in", ex.s))
				}
			}
			continue
		}
		if t.isRefParam(o) && !a.vari {
			e := unparen(a.e)
			var lv *LV
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND && !isComposite(u.X) {
				lv = t.lvalueBase(u.X, &pre)
			} else if se, ok := e.(*ast.SliceExpr); ok {
				lv = t.windowLV(se, &pre)
			} else {
				lv = t.lvalueBase(e, &pre)
				if _, ok := t.typeOf(e).Underlying().(*types.Pointer); ok {
					lv = t.derefLV(lv, t.typeOf(e))
				}
			}
			if assigned[o] {
				unsup("inlined %s reassigns pointer parameter %s", f.Name(), o.Name())
			}
			newB[o] = &Bind{kind: bPath, lv: lv}
			continue
		}
		if _, ok := o.Type().Underlying().(*types.Signature); ok && a.e != nil {
			// a function passed by name
			if g := t.funcRef(a.e); g != nil && !assigned[o] {
				newB[o] = &Bind{kind: bFunc, name: "0", funcs: []*types.Func{g}}
				continue
			}
		}
		// value parameter; slices whose elements are written must alias the caller's lvalue
		if mod.has(o) {
			if _, ok := o.Type().Underlying().(*types.Slice); ok {
				lv := t.lvalueBase(a.e, &pre)
				newB[o] = &Bind{kind: bPath, lv: lv}
				continue
			}
		}
		var ex Ex
		capd := t.u.Capped[f.Pkg().Name()+"."+funcKey(f)+"."+o.Name()]
		if a.vari {
			typ := a.form.Type().(*types.Slice)
			suf := t.ty.why(typ)[3:]
			s := "empty" + suf
			for _, e := range a.es {
				s = fmt.Sprintf("(snoc%s %s %s)", suf, s, atom(t.exprTo(e, typ.Elem(), false).s))
			}
			ex = Ex{s: s}
		} else if a.recv {
			if _, argPtr := t.typeOf(a.e).Underlying().(*types.Pointer); argPtr {
				if _, formPtr := o.Type().Underlying().(*types.Pointer); !formPtr {
					lv := t.derefLV(t.lvalueBase(a.e, &pre), t.typeOf(a.e))
					ex = Ex{s: lv.read(), capped: lv.capped}
				} else {
					ex = t.expr(a.e)
				}
			} else {
				ex = t.exprRep(a.e, capd)
			}
		} else {
			ex = t.exprTo(a.e, o.Type(), capd)
		}
		t.inl = append(t.inl, ctx) // so that declName uniquifies
		n := t.declName(o)
		t.inl = t.inl[:len(t.inl)-1]
		if assigned[o] {
			pre = append(pre, fmt.Sprintf("let ref %s = %s in", n, ex.s))
			newB[o] = &Bind{kind: bRef, name: n, capped: ex.capped}
			t.rootTyp[n] = o.Type()
		} else {
			pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
			newB[o] = &Bind{kind: bVal, name: n, capped: ex.capped}
		}
	}
	for o, b := range newB {
		t.env[o] = b
	}
	savePkg, saveRes, saveLoops, saveBody := t.pkg, t.res, t.loops, t.fnBody
	t.pkg, t.fnBody = p, fd.Body
	t.inl = append(t.inl, ctx)
	t.loops = nil
	sig := f.Type().(*types.Signature)
	t.res = nil
	var resDecl []string
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		rv := &resVar{obj: r, typ: r.Type()}
		if r.Name() != "" && r.Name() != "_" {
			rv.name = t.declName(r)
			resDecl = append(resDecl, fmt.Sprintf("let ref %s = %s in", rv.name, t.ty.zero(r.Type())))
			t.env[r] = &Bind{kind: bRef, name: rv.name}
			t.rootTyp[rv.name] = r.Type()
		}
		t.res = append(t.res, rv)
	}
	ctx.res = t.res
	ctx.rtyp = t.ty.why(sig.Results())
	nRet := countReturns(fd.Body)
	var s string
	list := fd.Body.List
	if nRet == 0 {
		s = t.block(list, "()")
	} else if last, ok := list[len(list)-1].(*ast.ReturnStmt); ok && nRet == 1 {
		s = t.blockTailRet(list[:len(list)-1], last)
	} else {
		ctx.exc = t.newExc("Ret", ctx.rtyp)
		tail := "absurd"
		if sig.Results().Len() == 0 {
			tail = "()"
		}
		body := t.block(list, tail)
		if ctx.rtyp == "unit" {
			s = fmt.Sprintf("(try %s with %s -> () end)", body, ctx.exc)
		} else {
			s = fmt.Sprintf("(try %s with %s rr_ -> rr_ end)", body, ctx.exc)
		}
	}
	t.inl = t.inl[:len(t.inl)-1]
	t.pkg, t.res, t.loops, t.fnBody = savePkg, saveRes, saveLoops, saveBody
	pre = append(pre, resDecl...)
	t.inlined[f] = true
	return Ex{s: t.withPre(pre, s), eff: true}
}

func (t *Tr) newExc(p, typ string) string {
	t.nexc++
	n := fmt.Sprintf("%s%d", p, t.nexc)
	if typ == "" || typ == "unit" {
		t.excs = append(t.excs, "exception "+n)
	} else {
		t.excs = append(t.excs, "exception "+n+" "+typ)
	}
	return n
}

func countReturns(b *ast.BlockStmt) int {
	n := 0
	ast.Inspect(b, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			n++
		}
		return true
	})
	return n
}

// assignedVars is the set of local variables assigned (or address-taken) in body.
func assignedVars(p *Pkg, body ast.Node) map[types.Object]bool {
	m := map[types.Object]bool{}
	root := func(e ast.Expr) {
		for {
			switch x := unparen(e).(type) {
			case *ast.Ident:
				if o := p.Info.Uses[x]; o != nil {
					m[o] = true
				}
				return
			case *ast.SelectorExpr:
				if bt, ok := p.Info.Types[x.X]; ok {
					if _, isp := bt.Type.Underlying().(*types.Pointer); isp {
						return
					}
				}
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			default:
				return
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				root(l)
			}
		case *ast.IncDecStmt:
			root(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					root(x.Key)
				}
				if x.Value != nil {
					root(x.Value)
				}
			}
		case *ast.SliceExpr: // slicing an array takes its address
			if tv, ok := p.Info.Types[x.X]; ok {
				if _, isa := tv.Type.Underlying().(*types.Array); isa {
					root(x.X)
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				root(x.X)
			}
		case *ast.CallExpr:
			if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
				if sel := p.Info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if f, ok := sel.Obj().(*types.Func); ok {
						if r := f.Type().(*types.Signature).Recv(); r != nil {
							if _, isp := r.Type().(*types.Pointer); isp {
								root(s.X)
							}
						}
					}
				}
			}
			if id, ok := unparen(x.Fun).(*ast.Ident); ok && (id.Name == "copy" || id.Name == "clear" || id.Name == "delete") && len(x.Args) > 0 {
				root(x.Args[0])
			}
			for _, a := range x.Args {
				// slices whose elements may be written by the callee
				if tv, ok := p.Info.Types[a]; ok && tv.Type != nil {
					if _, ok := tv.Type.Underlying().(*types.Slice); ok {
						if _, ok := unparen(a).(*ast.Ident); ok {
							root(a)
						}
					}
				}
			}
		}
		return true
	})
	return m
}
