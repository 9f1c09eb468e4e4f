package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Mod summarises what a function may write, syntactically and transitively.
type Mod struct {
	params  map[*types.Var]map[string]bool // first-level field names, "*" for everything
	heaps   map[string]bool                // record names
	globals map[string]bool
}

func (m *Mod) has(v *types.Var) bool { return m != nil && len(m.params[v]) > 0 }

func (m *Mod) refParam(v *types.Var) bool { return m.has(v) }

func (m *Mod) fieldWhy(t *Tr, v *types.Var) []string {
	fs := m.params[v]
	var out []string
	if fs["*"] {
		return []string{"*"}
	}
	var rec *Rec
	func() {
		defer func() { recover() }()
		rec = t.ty.recOf(v.Type())
	}()
	for f := range fs {
		if rec != nil {
			if rf := rec.field(f); rf != nil {
				out = append(out, rf.Why)
			}
			continue
		}
		out = append(out, "*")
	}
	sort.Strings(out)
	return out
}

func (t *Tr) mods(f *types.Func) *Mod {
	if m := t.modCache[f]; m != nil {
		return m
	}
	// fixpoint over the call graph reachable from f
	var todo []*types.Func
	seen := map[*types.Func]bool{}
	var visit func(g *types.Func)
	visit = func(g *types.Func) {
		if seen[g] {
			return
		}
		seen[g] = true
		todo = append(todo, g)
		p, fd := t.declOf(g)
		if fd == nil {
			return
		}
		sub := *t
		sub.pkg = p
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if h := sub.callee(c); h != nil && h.Pkg() != nil && strings.HasPrefix(h.Pkg().Path(), modPath) && t.u.Externs[externKey(h)] == nil {
					visit(h)
				}
			}
			return true
		})
	}
	visit(f)
	cur := map[*types.Func]*Mod{}
	for _, g := range todo {
		cur[g] = &Mod{map[*types.Var]map[string]bool{}, map[string]bool{}, map[string]bool{}}
	}
	for changed := true; changed; {
		changed = false
		for _, g := range todo {
			if t.modOnce(g, cur) {
				changed = true
			}
		}
	}
	for _, g := range todo {
		t.modCache[g] = cur[g]
	}
	return cur[f]
}

func (t *Tr) declOf(f *types.Func) (*Pkg, *ast.FuncDecl) {
	if f.Pkg() == nil {
		return nil, nil
	}
	p := t.ld.pkgs[f.Pkg().Path()]
	if p == nil {
		return nil, nil
	}
	fd := p.Decls[f]
	if fd == nil || fd.Body == nil {
		return nil, nil
	}
	return p, fd
}

type modRoot struct {
	obj   types.Object
	field string
}

func (t *Tr) modOnce(f *types.Func, cur map[*types.Func]*Mod) bool {
	p, fd := t.declOf(f)
	if fd == nil {
		return false
	}
	sub := *t
	sub.pkg = p
	m := cur[f]
	changed := false
	isParam := map[types.Object]bool{}
	for _, v := range formals(f) {
		isParam[v] = true
	}
	if sp := t.u.ByKey[f.Pkg().Name()+"."+funcKey(f)]; sp != nil {
		for _, w := range strings.FieldsFunc(sp.Writes, func(r rune) bool { return r == ',' || r == ' ' }) {
			if g := strings.TrimPrefix(w, "g_"); g != w && !m.globals[g] {
				m.globals[g] = true
				changed = true
			}
		}
	}
	alias := map[types.Object][]modRoot{}
	var record func(o types.Object, field string, direct bool)
	var heap func(n string)
	record = func(o types.Object, field string, direct bool) {
		if rs, ok := alias[o]; ok {
			for _, r := range rs {
				if r.obj == nil {
					heap(r.field)
					continue
				}
				fl := r.field
				if fl == "" {
					fl = field
				}
				record(r.obj, fl, false)
			}
			return
		}
		if v, ok := o.(*types.Var); ok {
			if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				if g := t.u.Globals[v.Name()]; strings.HasPrefix(g, "var") {
					if !m.globals[v.Name()] {
						m.globals[v.Name()] = true
						changed = true
					}
				}
				return
			}
			if !isParam[v] {
				return
			}
			if direct {
				return // reassignment of the parameter variable itself
			}
			if m.params[v] == nil {
				m.params[v] = map[string]bool{}
			}
			if !m.params[v][field] {
				m.params[v][field] = true
				changed = true
			}
		}
	}
	var collecting *[]string // while the root of an alias is looked up, the heaps it lies in
	heap = func(n string) {
		if collecting != nil {
			*collecting = append(*collecting, n)
			return
		}
		if !m.heaps[n] {
			m.heaps[n] = true
			changed = true
		}
	}
	// pathRoot resolves the storage e denotes: root object, first field, and whether any memory is shared with a parameter.
	var pathRoot func(e ast.Expr) (types.Object, string, bool)
	var heapOf func(e ast.Expr) string
	heapOf = func(e ast.Expr) string {
		tv, ok := p.Info.Types[e]
		if !ok {
			return ""
		}
		if pt, ok := tv.Type.Underlying().(*types.Pointer); ok {
			if t.ty.mode(pt.Elem()) == "heap" {
				if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
					return t.ty.recName(n)
				}
			}
		}
		return ""
	}
	pathRoot = func(e ast.Expr) (types.Object, string, bool) {
		e = unparen(e)
		switch x := e.(type) {
		case *ast.Ident:
			o := p.Info.Uses[x]
			if o == nil {
				o = p.Info.Defs[x]
			}
			return o, "", true
		case *ast.SelectorExpr:
			if s := p.Info.Selections[x]; s == nil {
				if o, ok := p.Info.Uses[x.Sel].(*types.Var); ok {
					return o, "*", false
				}
				return nil, "", false
			}
			if h := heapOf(x.X); h != "" {
				heap(h)
				return nil, "", false
			}
			o, fl, direct := pathRoot(x.X)
			if o == nil {
				return nil, "", false
			}
			if fl == "" {
				fl = x.Sel.Name
			}
			if direct {
				if _, isp := p.Info.Types[x.X].Type.Underlying().(*types.Pointer); isp {
					direct = false
				}
			}
			return o, fl, direct
		case *ast.IndexExpr:
			o, fl, direct := pathRoot(x.X)
			if o == nil {
				return nil, "", false
			}
			if fl == "" {
				fl = "*"
			}
			if _, isArr := p.Info.Types[x.X].Type.Underlying().(*types.Array); !isArr {
				direct = false
			}
			return o, fl, direct
		case *ast.SliceExpr:
			o, fl, _ := pathRoot(x.X)
			if o == nil {
				return nil, "", false
			}
			if fl == "" {
				fl = "*"
			}
			return o, fl, false
		case *ast.StarExpr:
			if h := heapOf(x.X); h != "" {
				heap(h)
				return nil, "", false
			}
			o, fl, _ := pathRoot(x.X)
			if fl == "" {
				fl = "*"
			}
			return o, fl, false
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				return pathRoot(x.X)
			}
		case *ast.CallExpr: // (*T)(p) of a pointer p
			if ptrConv(p, x) {
				return pathRoot(x.Args[0])
			}
		}
		return nil, "", false
	}
	write := func(e ast.Expr) {
		o, fl, direct := pathRoot(e)
		if o == nil {
			return
		}
		if fl == "" {
			fl = "*"
		}
		record(o, fl, direct)
	}
	// aliases first (flow-insensitive)
	aliasRoot := func(o types.Object, e ast.Expr) (types.Object, string) {
		var hs []string
		collecting = &hs
		ro, fl, _ := pathRoot(e)
		collecting = nil
		for _, h := range hs {
			alias[o] = append(alias[o], modRoot{nil, h})
		}
		return ro, fl
	}
	addAlias := func(lhs *ast.Ident, rhs ast.Expr) {
		o := p.Info.Defs[lhs]
		if o == nil {
			o = p.Info.Uses[lhs]
		}
		if o == nil || isParam[o] {
			return
		}
		if sliceAlias(p, fd.Body, o, rhs) {
			ro, fl := aliasRoot(o, unparen(rhs))
			if ro != nil && ro != o {
				alias[o] = append(alias[o], modRoot{ro, fl})
			}
			return
		}
		pt, ok := o.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		if md := t.ty.mode(pt.Elem()); md == "heap" || md == "const" || md == "value" {
			return
		}
		r := unparen(rhs)
		if u, ok := r.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if isComposite(u.X) {
				return
			}
			r = u.X
		} else if _, ok := r.(*ast.Ident); !ok {
			if _, ok := r.(*ast.SelectorExpr); !ok {
				return
			}
		}
		ro, fl := aliasRoot(o, r)
		if ro != nil && ro != o {
			for _, x := range alias[o] {
				if x.obj == ro && x.field == fl {
					return
				}
			}
			alias[o] = append(alias[o], modRoot{ro, fl})
		}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == len(a.Rhs) && (a.Tok == token.DEFINE || a.Tok == token.ASSIGN) {
			for i := range a.Lhs {
				if id, ok := a.Lhs[i].(*ast.Ident); ok {
					if u, isu := unparen(a.Rhs[i]).(*ast.UnaryExpr); a.Tok == token.ASSIGN && !(isu && u.Op == token.AND) {
						continue
					}
					addAlias(id, a.Rhs[i])
				}
			}
		}
		return true
	})
	// swaps between aliases
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == len(a.Rhs) && a.Tok == token.ASSIGN {
			for i := range a.Lhs {
				l, ok1 := a.Lhs[i].(*ast.Ident)
				r, ok2 := unparen(a.Rhs[i]).(*ast.Ident)
				if ok1 && ok2 {
					lo, ro := p.Info.Uses[l], p.Info.Uses[r]
					if lo != nil && ro != nil && alias[ro] != nil && alias[lo] != nil {
						for _, x := range alias[ro] {
							dup := false
							for _, y := range alias[lo] {
								if x == y {
									dup = true
								}
							}
							if !dup {
								alias[lo] = append(alias[lo], x)
							}
						}
					}
				}
			}
		}
		return true
	})
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				if len(x.Lhs) == len(x.Rhs) {
					for i := range x.Lhs {
						if id, ok := x.Lhs[i].(*ast.Ident); ok && p.Info.Defs[id] != nil {
							if b := emptyWindow(p, x.Rhs[i]); b != nil && appended(p, fd.Body, p.Info.Defs[id]) {
								if o := p.Info.Uses[b]; o != nil {
									record(o, "*", false)
								}
							}
						}
					}
				}
				return true
			}
			if u, v := sliceSwap(p, x); u != nil {
				record(u, "*", false)
				record(v, "*", false)
				return true
			}
			for _, l := range x.Lhs {
				write(l)
			}
		case *ast.IncDecStmt:
			write(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					write(x.Key)
				}
				if x.Value != nil {
					write(x.Value)
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
					if tv, ok := p.Info.Types[cl]; ok {
						if n, ok := types.Unalias(tv.Type).(*types.Named); ok && t.ty.mode(n) == "heap" {
							heap(t.ty.recName(n))
						}
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := unparen(x.Fun).(*ast.Ident); ok {
				if b, ok := p.Info.Uses[id].(*types.Builtin); ok {
					if (b.Name() == "copy" || b.Name() == "clear" || b.Name() == "delete") && len(x.Args) > 0 {
						o, fl, _ := pathRoot(x.Args[0])
						if o != nil {
							if fl == "" {
								fl = "*"
							}
							record(o, fl, false)
						}
					}
					return true
				}
			}
			g := sub.callee(x)
			if g == nil {
				// function value: extern modelled
				k := "funcvar:"
				if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
					k += s.Sel.Name
				} else if id, ok := unparen(x.Fun).(*ast.Ident); ok {
					k += id.Name
				}
				if e := t.u.Externs[k]; e != nil {
					t.externMods(e, m, &changed)
				}
				return true
			}
			var ext *Extern
			if e := t.u.Externs[externKey(g)]; e != nil {
				ext = e
			} else if g.Pkg() != nil {
				if e := t.u.Externs[g.Pkg().Name()+"."+funcKey(g)]; e != nil {
					ext = e
				}
			}
			as := func() (r []argPair) {
				defer func() { recover() }()
				return sub.actuals(x, g)
			}()
			if ext != nil {
				t.externMods(ext, m, &changed)
				for _, ps := range strings.Split(ext.Flags["inout"], ",") {
					if ps == "" {
						continue
					}
					k := int(ps[0] - '0')
					if k < len(as) && as[k].e != nil {
						o, fl, _ := pathRoot(as[k].e)
						if o != nil {
							if fl == "" {
								fl = "*"
							}
							record(o, fl, false)
						}
					}
				}
				return true
			}
			cm := cur[g]
			if cm == nil {
				cm = t.modCache[g]
			}
			if cm == nil {
				return true
			}
			for h := range cm.heaps {
				heap(h)
			}
			for gl := range cm.globals {
				if !m.globals[gl] {
					m.globals[gl] = true
					changed = true
				}
			}
			for _, a := range as {
				fs := cm.params[a.form]
				if len(fs) == 0 || a.e == nil {
					continue
				}
				o, fl, _ := pathRoot(a.e)
				if o == nil {
					continue
				}
				if fl != "" {
					record(o, fl, false)
					continue
				}
				// whole variable passed
				if _, isp := o.Type().Underlying().(*types.Pointer); isp || isParam[o] {
					for f := range fs {
						if alias[o] != nil {
							record(o, f, false)
						} else {
							record(o, f, false)
						}
					}
				}
			}
		}
		return true
	})
	return changed
}

func (t *Tr) externMods(e *Extern, m *Mod, changed *bool) {
	for _, h := range strings.Split(e.Flags["heap"], ",") {
		if h != "" && !m.heaps[h] {
			m.heaps[h] = true
			*changed = true
		}
	}
	for _, h := range strings.Split(e.Flags["mod"], ",") {
		h = strings.TrimPrefix(h, "g_")
		if h != "" && !m.globals[h] {
			m.globals[h] = true
			*changed = true
		}
	}
}
