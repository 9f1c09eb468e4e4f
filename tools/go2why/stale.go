package main

// A pointer parameter the callee does not write is passed by value. When another argument of the same
// call is written and overlaps what it points to, the copy goes stale: the callee must then not look
// at the overlapping part after it may have been written.

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (t *Tr) argPath(a argPair) *LV {
	if a.vari {
		return nil
	}
	var pre []string
	e := unparen(a.e)
	if u, ok := e.(*ast.UnaryExpr); ok {
		if u.Op != token.AND || isComposite(u.X) {
			return nil
		}
		e = unparen(u.X)
	}
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr:
	default:
		return nil
	}
	l := t.lvalueBase(e, &pre)
	if _, ok := t.typeOf(e).Underlying().(*types.Pointer); ok {
		l = t.derefLV(l, t.typeOf(e))
	}
	return l
}

func (t *Tr) staleCheck(as []argPair, f *types.Func, pf []*types.Var, isRef func(i int) bool) {
	for i, a := range as {
		if !isRef(i) {
			continue
		}
		r := t.argPath(a)
		if r == nil || r.ro {
			continue
		}
		for j, b := range as {
			if j == i || isRef(j) || b.vari || !t.isRefParam(b.form) {
				continue
			}
			v := t.argPath(b)
			if v == nil || !overlap(r, v) {
				continue
			}
			if len(v.sels) < len(r.sels) {
				s := r.sels[len(v.sels)]
				if s.field != nil && t.fieldUnused(f, j, s.field.Go, map[*types.Func]bool{}) {
					continue
				}
				unsup("%s reads through one pointer argument what it may write through another", f.Name())
			}
			if !t.readFirst(f, j, i) {
				unsup("%s reads through one pointer argument after it may have written through another", f.Name())
			}
		}
	}
}

// fieldUnused: the j-th parameter of f is only used to reach other fields than the named one.
func (t *Tr) fieldUnused(f *types.Func, j int, field string, seen map[*types.Func]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	p, fd := t.declOf(f)
	if fd == nil {
		return false
	}
	pv := t.paramVars(f)
	ok := true
	var stack []ast.Node
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		id, isID := n.(*ast.Ident)
		if !isID || p.Info.Uses[id] != types.Object(pv[j]) {
			return true
		}
		var par, gp ast.Node
		if len(stack) >= 2 {
			par = stack[len(stack)-2]
		}
		if len(stack) >= 3 {
			gp = stack[len(stack)-3]
		}
		callee := func(c *ast.CallExpr) *types.Func {
			switch x := unparen(c.Fun).(type) {
			case *ast.Ident:
				g, _ := p.Info.Uses[x].(*types.Func)
				return g
			case *ast.SelectorExpr:
				g, _ := p.Info.Uses[x.Sel].(*types.Func)
				return g
			}
			return nil
		}
		switch x := par.(type) {
		case *ast.SelectorExpr:
			if s := p.Info.Selections[x]; s != nil && s.Kind() == types.FieldVal && len(s.Index()) == 1 {
				if x.Sel.Name == field {
					ok = false
				}
				return true
			}
			if c, isCall := gp.(*ast.CallExpr); isCall && unparen(c.Fun) == ast.Expr(x) {
				if g := callee(c); g != nil && t.fieldUnused(g, 0, field, seen) {
					return true
				}
			}
		case *ast.CallExpr:
			if g := callee(x); g != nil {
				off := 0
				if g.Type().(*types.Signature).Recv() != nil {
					off = 1
				}
				for k, e := range x.Args {
					if unparen(e) == ast.Expr(id) && t.fieldUnused(g, k+off, field, seen) {
						return true
					}
				}
			}
		}
		ok = false
		return true
	})
	return ok
}

// readFirst: every use of the j-th parameter of f comes before anything that may write through the i-th.
func (t *Tr) readFirst(f *types.Func, j, i int) bool {
	p, fd := t.declOf(f)
	if fd == nil {
		return false
	}
	pv := t.paramVars(f)
	var lastUse, firstWrite token.Pos
	firstWrite = fd.Body.End()
	inLoop := 0
	ok := true
	var stack []ast.Node
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			switch stack[len(stack)-1].(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
				inLoop--
			}
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			inLoop++
		case *ast.LabeledStmt, *ast.DeferStmt, *ast.GoStmt:
			ok = false
		case *ast.Ident:
			o := p.Info.Uses[x]
			if o == types.Object(pv[j]) {
				lastUse = max(lastUse, x.Pos())
				if inLoop > 0 {
					ok = false
				}
			}
			if o == types.Object(pv[i]) && !plainRead(p, stack) {
				firstWrite = min(firstWrite, x.Pos())
			}
		}
		return true
	})
	return ok && lastUse < firstWrite
}

// plainRead: the identifier on top of the stack only selects a field of map or basic type that is read.
func plainRead(p *Pkg, stack []ast.Node) bool {
	k := len(stack) - 2
	if k < 1 {
		return false
	}
	s, ok := stack[k].(*ast.SelectorExpr)
	if !ok {
		return false
	}
	sel := p.Info.Selections[s]
	if sel == nil || sel.Kind() != types.FieldVal {
		return false
	}
	k--
	if ix, ok := stack[k].(*ast.IndexExpr); ok && ix.X == ast.Expr(s) {
		k--
	}
	switch x := stack[k].(type) {
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if l.Pos() <= s.Pos() && s.Pos() < l.End() {
				return false
			}
		}
		return true
	case *ast.BinaryExpr:
		return true
	}
	return false
}
