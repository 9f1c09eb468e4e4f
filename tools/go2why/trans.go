package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---------- bindings and lvalues ----------

type bindKind int

const (
	bVal  bindKind = iota // immutable WhyML name
	bRef                  // mutable WhyML ref name (auto-dereferenced)
	bPath                 // alias of an lvalue
	bFunc                 // function value: one of a known set
)

type Bind struct {
	kind   bindKind
	name   string
	lv     *LV
	capped bool
	dead   string // non-empty: alias no longer valid
	funcs  []*types.Func
	lit    *ast.FuncLit
	litEnv map[types.Object]*Bind
	win    string // bPath: the elements [0:win) of lv, which appending overwrites in place
	winLV  *LV
}

type Sel struct {
	rec    *Rec
	field  *RecField
	index  string // index expression (already a pure name or literal)
	suf    string // sequence suffix for index
	arrC   bool   // index into capped
	heap   *Rec   // heap dereference at index
	lo, hi string // window [lo:hi] of the sequence
}

type LV struct {
	root   string // ref variable, or h_T for heap, or expression (ro)
	ro     bool
	sels   []Sel
	typ    types.Type
	capped bool
	obj    types.Object
}

func (l *LV) clone() *LV {
	c := *l
	c.sels = append([]Sel(nil), l.sels...)
	return &c
}

func (l *LV) readN(n int) string {
	s := l.root
	for i := 0; i < n; i++ {
		x := l.sels[i]
		switch {
		case x.heap != nil:
			s = fmt.Sprintf("(hget_%s %s)", x.heap.Name, x.index)
		case x.field != nil:
			s = s + "." + x.field.Why
		case x.hi != "" && x.arrC:
			s = fmt.Sprintf("(cslice%s %s %s %s)", x.suf, atom(s), x.lo, x.hi)
		case x.hi != "":
			s = fmt.Sprintf("(slice%s %s %s %s)", x.suf, atom(s), x.lo, x.hi)
		case x.arrC:
			s = fmt.Sprintf("(cidx%s %s %s)", x.suf, atom(s), x.index)
		default:
			s = fmt.Sprintf("(idx%s %s %s)", x.suf, atom(s), x.index)
		}
	}
	return s
}

func (l *LV) read() string { return l.readN(len(l.sels)) }

func (l *LV) write(v string) string {
	if l.ro {
		unsup("write through read-only path %s", l.root)
	}
	for i := len(l.sels) - 1; i >= 0; i-- {
		x := l.sels[i]
		base := l.readN(i)
		switch {
		case x.heap != nil:
			return fmt.Sprintf("hput_%s %s %s", x.heap.Name, x.index, atom(v)) // heap selectors are always outermost
		case x.field != nil:
			v = recUpd(x.rec, base, x.field, v)
		case x.hi != "" && x.arrC:
			v = fmt.Sprintf("(csplice%s %s %s %s)", x.suf, atom(base), x.lo, atom(v))
		case x.hi != "":
			v = fmt.Sprintf("(splice%s %s %s %s)", x.suf, atom(base), x.lo, atom(v))
		case x.arrC:
			v = fmt.Sprintf("(cset%s %s %s %s)", x.suf, atom(base), x.index, atom(v))
		default:
			v = fmt.Sprintf("(set%s %s %s %s)", x.suf, atom(base), x.index, atom(v))
		}
	}
	return fmt.Sprintf("%s <- %s", l.root, v)
}

func recUpd(r *Rec, base string, f *RecField, v string) string {
	if len(r.Fields) == 1 {
		return fmt.Sprintf("{ %s = %s }", f.Why, v)
	}
	return fmt.Sprintf("{ %s with %s = %s }", atom(base), f.Why, v)
}

func atom(s string) string {
	if s == "" {
		return "()"
	}
	simple := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c == '.' || c == '\'' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			simple = false
			break
		}
	}
	if simple {
		return s
	}
	if s[0] == '(' && matchParen(s) == len(s)-1 || s[0] == '{' && matchParen(s) == len(s)-1 {
		return s
	}
	return "(" + s + ")"
}

func matchParen(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '{':
			d++
		case ')', '}':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// ---------- expression results ----------

type Ex struct {
	s      string
	eff    bool // has effects or raises obligations that need ordering
	capped bool
}

// ---------- translator ----------

type Tr struct {
	u          *Unit
	ld         *Loader
	ty         *Types
	pkg        *Pkg // package of the code being translated (changes while inlining)
	fn         *types.Func
	spec       *FuncSpec
	env        map[types.Object]*Bind
	names      map[string]int // names in scope
	tmp        int
	nloop      int
	ncall      map[string]int
	nret       int
	nsearch    int
	nswitch    int
	excs       []string
	loops      []*loopCtx
	res        []*resVar
	inl        []*inlCtx
	lits       []string // top-level declarations (string literals, predicates)
	litIx      map[string]string
	callees    map[*types.Func]bool
	externs    map[string]bool
	dropped    map[string]bool
	globals    map[string]bool
	anon       int
	bodyWrites map[string]bool
	stmtCalls  []string
	wantCapped bool
	rootTyp    map[string]types.Type
	inlined    map[*types.Func]bool
	nexc       int
	modCache   map[*types.Func]*Mod
	assigned   map[types.Object]bool
	scope      []string // ref variable names currently in scope (outermost first)
	funcSrc    string
	specText   string
	searchPred map[int]string
	fnBody     ast.Node
	rebound    []rebinding // pointer variables given another meaning in the current block
	pendDead   []types.Object
	loopNodes  []ast.Node
	ifSP       string // attribute put on if statements instead of the whole body
	fallLabels map[string]*loopCtx
	subst      map[string]string // spec identifier -> current name
	usedNames  map[string]bool
	locals     []localInfo
}

type rebinding struct {
	o types.Object
	b *Bind
}

type localInfo struct{ Name, Type string }

type loopCtx struct {
	brk, cnt     string
	isSwitch     bool
	usedB, usedC bool
	label        string
	inlDepth     int
}

type resVar struct {
	obj    types.Object
	name   string
	typ    types.Type
	capped bool
}

type inlCtx struct {
	names     map[string]string // local of the inlined function -> its current name
	exc       string
	fn        *types.Func
	res       []*resVar
	used      bool
	rtyp      string
	loopDepth int
	yield     *yieldCtx
}

type yieldCtx struct{}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`abstract absurd alias any as assert assume at axiom begin break by check clone coinductive constant continue
 diverges do done downto else end ensures epsilon exception exists export false float for forall fun function ghost goal if import in inductive
 invariant label lemma let match meta module mutable namespace not old partial predicate private pure raise raises reads rec ref requires
 result return returns scope so then theory to true try type use val variant while with writes get set map int bool unit min max div mod abs length range`) {
		reserved[w] = true
	}
}

func (t *Tr) whyName(goName string) string {
	n := goName
	if n == "_" {
		t.tmp++
		return fmt.Sprintf("u_%d", t.tmp)
	}
	if c := n[0]; c >= 'A' && c <= 'Z' {
		n = "u" + n
	}
	if reserved[n] {
		n += "_"
	}
	return n
}

func (t *Tr) declName(o types.Object) string {
	goName := o.Name()
	if t.spec != nil && t.spec.RenameOf != nil {
		if r := t.spec.RenameOf[goName]; r != "" {
			goName = r
		}
	}
	n := t.whyName(goName)
	if len(t.inl) > 0 {
		base := n
		if t.names[n] > 0 {
			t.tmp++
			n = fmt.Sprintf("%s_i%d", n, t.tmp)
		}
		c := t.inl[len(t.inl)-1]
		if c.names == nil {
			c.names = map[string]string{}
		}
		c.names[base] = n
	}
	t.names[n]++
	return n
}

func (t *Tr) fresh(p string) string {
	t.tmp++
	return fmt.Sprintf("%s_%d", p, t.tmp)
}

func (t *Tr) typeOf(e ast.Expr) types.Type {
	tv, ok := t.pkg.Info.Types[e]
	if ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := t.obj(id); o != nil {
			return o.Type()
		}
	}
	unsup("no type for expression %s", t.src(e))
	return nil
}

func (t *Tr) obj(id *ast.Ident) types.Object {
	if o := t.pkg.Info.Uses[id]; o != nil {
		return o
	}
	return t.pkg.Info.Defs[id]
}

func (t *Tr) src(n ast.Node) string {
	p := t.ld.fset.Position(n.Pos())
	q := t.ld.fset.Position(n.End())
	b := t.pkg.Src[p.Filename]
	if b == nil || q.Offset > len(b) {
		return "?"
	}
	return string(b[p.Offset:q.Offset])
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (t *Tr) constVal(e ast.Expr) constant.Value {
	if tv, ok := t.pkg.Info.Types[e]; ok && tv.Value != nil {
		return tv.Value
	}
	if id, ok := unparen(e).(*ast.Ident); ok {
		if o, ok := t.obj(id).(*types.Var); ok && o.Parent() == o.Pkg().Scope() {
			if g := t.u.Globals[o.Name()]; strings.HasPrefix(g, "const ") {
				n, _ := new(big.Int).SetString(strings.TrimPrefix(g, "const "), 0)
				if n != nil {
					return constant.Make(n)
				}
				if g == "const true" || g == "const false" {
					return constant.MakeBool(g == "const true")
				}
			}
		}
	}
	return nil
}

func (t *Tr) constInt(e ast.Expr) (*big.Int, bool) {
	v := t.constVal(e)
	if v == nil {
		return nil, false
	}
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return nil, false
	}
	n, ok := new(big.Int).SetString(v.ExactString(), 10)
	return n, ok
}

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(" + n.String() + ")"
	}
	return n.String()
}

func (t *Tr) strLit(s string) string {
	if s == "" {
		return "emptyB"
	}
	t.ty.why(types.Typ[types.String])
	if n, ok := t.litIx[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit%d", len(t.litIx))
	t.litIx[s] = n
	var b strings.Builder
	fmt.Fprintf(&b, "  (* %q *)\n  val constant %s : seqB ensures { lenB result = %d", strings.ReplaceAll(strings.ReplaceAll(s, "*)", "* )"), "(*", "( *"), n, len(s))
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, " /\\ getB result %d = %d", i, s[i])
	}
	for _, p := range t.u.Literals {
		if q, bad, ok := strings.Cut(p, "~"); ok {
			if strings.ContainsAny(s, bad) {
				continue
			}
			p = q
		}
		b.WriteString(" /\\ " + p + " result")
	}
	b.WriteString(" }\n")
	t.lits = append(t.lits, b.String())
	return n
}

// ---------- lvalues ----------

func (t *Tr) lvalue(e ast.Expr, pre *[]string) *LV {
	e = unparen(e)
	switch x := e.(type) {
	case *ast.Ident:
		o := t.obj(x)
		if b := t.env[o]; b != nil {
			switch b.kind {
			case bRef:
				return &LV{root: b.name, typ: o.Type(), capped: b.capped, obj: o}
			case bVal:
				return &LV{root: b.name, ro: true, typ: o.Type(), capped: b.capped, obj: o}
			case bPath:
				if b.dead != "" {
					unsup("pointer %s used after %s", x.Name, b.dead)
				}
				l := b.lv.clone()
				return l
			}
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
			return t.globalLV(v)
		}
		unsup("unbound variable %s", x.Name)
	case *ast.SelectorExpr:
		if s := t.pkg.Info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
			base := t.lvalueBase(x.X, pre)
			cur := t.typeOf(x.X)
			for _, fi := range s.Index() {
				base = t.derefLV(base, cur)
				st := cur
				if p, ok := st.Underlying().(*types.Pointer); ok {
					st = p.Elem()
				}
				if t.u.Partial && t.ty.why(st) == "int" {
					// a field of an object whose representation is not looked into
					v := "(any " + t.ty.why(t.typeOf(x)) + ")"
					if s := t.ty.rngText(t.typeOf(x), "result"); s != "" {
						v = "(let result = any " + t.ty.why(t.typeOf(x)) + " in assume { " + s + " }; result)"
					}
					return &LV{root: v, ro: true, typ: t.typeOf(x)}
				}
				rec := t.ty.recOf(st)
				f := st.Underlying().(*types.Struct).Field(fi)
				rf := rec.field(f.Name())
				if rf == nil {
					unsup("field %s.%s is outside the model", rec.GoName, f.Name())
				}
				base = base.clone()
				base.sels = append(base.sels, Sel{rec: rec, field: rf})
				base.typ = f.Type()
				base.capped = rf.Capped
				cur = f.Type()
			}
			return base
		}
		if o, ok := t.pkg.Info.Uses[x.Sel].(*types.Var); ok {
			return t.globalLV(o)
		}
	case *ast.IndexExpr:
		bt := t.typeOf(x.X)
		base := t.lvalueBase(x.X, pre)
		if p, ok := bt.Underlying().(*types.Pointer); ok {
			base = t.derefLV(base, bt)
			bt = p.Elem()
		}
		var el types.Type
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Array:
			el = u.Elem()
		case *types.Basic:
			el = types.Typ[types.Uint8]
		default:
			unsup("index of %s", bt)
		}
		ix := t.expr(x.Index)
		is := ix.s
		if !isSimple(is) {
			n := t.fresh("ix")
			*pre = append(*pre, fmt.Sprintf("let %s = %s in", n, is))
			is = n
		}
		suf := t.ty.why(bt)[3:]
		l := base.clone()
		l.sels = append(l.sels, Sel{index: is, suf: suf, arrC: base.capped})
		l.typ = el
		l.capped = false
		return l
	case *ast.StarExpr:
		b := t.lvalueBase(x.X, pre)
		return t.derefLV(b, t.typeOf(x.X))
	}
	unsup("not an lvalue: %s", t.src(e))
	return nil
}

func isSimple(s string) bool {
	return s != "" && !strings.ContainsAny(s, " (){};")
}

// lvalueBase is lvalue, or a read-only path holding the value of e.
func (t *Tr) lvalueBase(e ast.Expr, pre *[]string) *LV {
	e = unparen(e)
	switch x := e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if ie, ok := x.(*ast.IndexExpr); ok {
			if _, isMap := t.typeOf(ie.X).Underlying().(*types.Map); isMap {
				break
			}
		}
		return t.lvalue(e, pre)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return t.lvalueBase(x.X, pre)
		}
	case *ast.CallExpr: // (*T)(p): the same variable seen at a type with the same underlying type
		if ptrConv(t.pkg, x) {
			return t.lvalueBase(x.Args[0], pre)
		}
	}
	ex := t.expr(e)
	n := t.fresh("v")
	_, isCall := e.(*ast.CallExpr)
	_, isStruct := t.typeOf(e).Underlying().(*types.Struct)
	if isCall && isStruct || t.freshSlice(t.pkg, e) { // a value of its own
		*pre = append(*pre, fmt.Sprintf("let ref %s = %s in", n, ex.s))
		return &LV{root: n, typ: t.typeOf(e), capped: ex.capped}
	}
	*pre = append(*pre, fmt.Sprintf("let %s = %s in", n, ex.s))
	return &LV{root: n, ro: true, typ: t.typeOf(e), capped: ex.capped}
}

// freshSlice reports whether e yields a slice with storage of its own: a composite literal, an append to one,
// or a call of a function whose only statement returns such an expression.
func (t *Tr) freshSlice(p *Pkg, e ast.Expr) bool {
	e = unparen(e)
	if _, ok := p.Info.Types[e].Type.Underlying().(*types.Slice); !ok {
		return false
	}
	switch x := e.(type) {
	case *ast.CompositeLit:
		return true
	case *ast.CallExpr:
		if id, ok := unparen(x.Fun).(*ast.Ident); ok {
			if b, ok := p.Info.Uses[id].(*types.Builtin); ok {
				return b.Name() == "make" || b.Name() == "append" && t.freshSlice(p, x.Args[0])
			}
		}
		var f *types.Func
		switch fn := unparen(x.Fun).(type) {
		case *ast.Ident:
			f, _ = p.Info.Uses[fn].(*types.Func)
		case *ast.SelectorExpr:
			f, _ = p.Info.Uses[fn.Sel].(*types.Func)
		}
		if f == nil || f.Pkg() == nil {
			return false
		}
		q := t.ld.pkgs[f.Pkg().Path()]
		if q == nil {
			return false
		}
		fd := q.Decls[f]
		if fd == nil || fd.Body == nil || len(fd.Body.List) != 1 {
			return false
		}
		r, ok := fd.Body.List[0].(*ast.ReturnStmt)
		return ok && len(r.Results) == 1 && t.freshSlice(q, r.Results[0])
	}
	return false
}

// derefLV follows a pointer-typed path (identity for struct-typed and ref-mode pointers).
func (t *Tr) derefLV(l *LV, typ types.Type) *LV {
	p, ok := typ.Underlying().(*types.Pointer)
	if !ok {
		return l
	}
	switch t.ty.mode(p.Elem()) {
	case "heap":
		rec := t.ty.recOf(p.Elem())
		return &LV{root: "h_" + rec.Name, sels: []Sel{{heap: rec, index: t.asIndex(l.read())}}, typ: p.Elem()}
	case "const":
		rec := t.ty.recOf(p.Elem())
		return &LV{root: fmt.Sprintf("(deref_%s %s)", rec.Name, atom(l.read())), ro: true, typ: p.Elem()}
	}
	l = l.clone()
	l.typ = p.Elem()
	return l
}

func (t *Tr) asIndex(s string) string { return atom(s) }

func (t *Tr) globalLV(v *types.Var) *LV {
	g, ok := t.u.Globals[v.Name()]
	if !ok {
		if g, ok := t.u.Globals["&"+v.Name()]; ok {
			if n, ok := types.Unalias(v.Type()).(*types.Named); ok && t.ty.mode(n) == "heap" {
				// a global object that lives in the heap of its type
				rec := t.ty.recOf(n)
				return &LV{root: "h_" + rec.Name, sels: []Sel{{heap: rec, index: g}}, typ: n}
			}
		}
		unsup("global variable %s has no model", v.Name())
	}
	fs := strings.Fields(g)
	switch fs[0] {
	case "const":
		return &LV{root: strings.Join(fs[1:], " "), ro: true, typ: v.Type(), obj: v}
	case "lit":
		// a package variable that is initialised with a string literal and never assigned
		s, ok := t.literalVar(v)
		if !ok {
			unsup("global variable %s is not a literal any more", v.Name())
		}
		return &LV{root: t.strLit(s), ro: true, typ: v.Type(), obj: v}
	case "var", "seg":
		t.globals[v.Name()] = true
		return &LV{root: "g_" + v.Name(), typ: v.Type(), obj: v}
	case "ro":
		t.globals[v.Name()] = true
		return &LV{root: "g_" + v.Name(), ro: true, typ: v.Type(), obj: v}
	}
	unsup("global %s: unknown model %q", v.Name(), g)
	return nil
}

// literalVar is the value of a package variable initialised with a string literal and assigned nowhere in its package.
// initialGlobals states, for a package initialiser, the values that the designated global objects of
// this package are declared with.
func (t *Tr) initialGlobals() string {
	var out []string
	for _, f := range t.pkg.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Values) != len(vs.Names) {
					continue
				}
				for i, id := range vs.Names {
					a, ok := t.u.Globals["&"+id.Name]
					if !ok {
						continue
					}
					v := t.exprTo(vs.Values[i], t.pkg.Info.Defs[id].Type(), false)
					rec := t.ty.recOf(t.pkg.Info.Defs[id].Type())
					if !v.eff {
						out = append(out, fmt.Sprintf("assume { %s <> 0 /\\ get h_%s %s = %s };\n", a, rec.Name, a, v.s))
					}
				}
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "")
}

func (t *Tr) literalVar(v *types.Var) (string, bool) {
	if v.Exported() {
		return "", false
	}
	val, ok := "", false
	for _, p := range t.ld.pkgs {
		if p.Types != v.Pkg() {
			continue
		}
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ValueSpec:
					for i, id := range x.Names {
						if p.Info.Defs[id] == v && i < len(x.Values) {
							if tv := p.Info.Types[x.Values[i]]; tv.Value != nil && tv.Value.Kind() == constant.String {
								val, ok = constant.StringVal(tv.Value), true
							} else if cl, is := unparen(x.Values[i]).(*ast.CompositeLit); is && isByteSlice(v.Type()) {
								val, ok = "", true
								for _, el := range cl.Elts {
									ev := p.Info.Types[el].Value
									if ev == nil {
										ok = false
										break
									}
									n, _ := constant.Int64Val(constant.ToInt(ev))
									val += string([]byte{byte(n)})
								}
							} else if cv, is := unparen(x.Values[i]).(*ast.CallExpr); is && len(cv.Args) == 1 && p.Info.Types[cv.Fun].IsType() {
								if ev := p.Info.Types[cv.Args[0]].Value; ev != nil && ev.Kind() == constant.String {
									val, ok = constant.StringVal(ev), true
								}
							}
						}
					}
				}
				return true
			})
		}
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						if id, is := unparen(l).(*ast.Ident); is && p.Info.Uses[id] == v {
							ok = false
						}
					}
				case *ast.UnaryExpr:
					if id, is := unparen(x.X).(*ast.Ident); is && x.Op == token.AND && p.Info.Uses[id] == v {
						ok = false
					}
				}
				return true
			})
		}
	}
	return val, ok
}

// ---------- expressions ----------

func (t *Tr) withPre(pre []string, s string) string {
	if len(pre) == 0 {
		return s
	}
	return "(" + strings.Join(pre, " ") + " " + s + ")"
}

// exprRep translates e to the wanted representation.
func (t *Tr) exprRep(e ast.Expr, capped bool) Ex {
	x := t.expr(e)
	if x.capped == capped {
		return x
	}
	suf := t.ty.why(t.typeOf(e))
	if suf == "unit" || suf == "int" { // untyped nil
		return x
	}
	suf = suf[3:]
	if capped {
		return Ex{s: fmt.Sprintf("(ofplain%s %s)", suf, atom(x.s)), eff: true, capped: true}
	}
	return Ex{s: fmt.Sprintf("(pplain%s %s)", suf, atom(x.s)), eff: x.eff}
}

func (t *Tr) plain(e ast.Expr) string { return t.exprRep(e, false).s }

// exprTo translates e converted implicitly to type want (handles nil).
func (t *Tr) exprTo(e ast.Expr, want types.Type, capped bool) Ex {
	if t.isNil(e) {
		if capped {
			s := t.ty.why(want)[3:]
			return Ex{s: fmt.Sprintf("{c%s_a = empty%s; c%s_n = 0}", s, s, s), capped: true}
		}
		return Ex{s: t.ty.zero(want)}
	}
	return t.exprRep(e, capped)
}

func (t *Tr) isNil(e ast.Expr) bool {
	tv, ok := t.pkg.Info.Types[unparen(e)]
	return ok && tv.IsNil()
}

func (t *Tr) expr(e ast.Expr) Ex {
	if v := t.constVal(e); v != nil {
		switch v.Kind() {
		case constant.Bool:
			return Ex{s: fmt.Sprint(constant.BoolVal(v))}
		case constant.String:
			return Ex{s: t.strLit(constant.StringVal(v))}
		}
		if n, ok := t.constInt(e); ok {
			return Ex{s: intLit(n)}
		}
		unsup("constant %s", t.src(e))
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.expr(x.X)
	case *ast.Ident:
		if x.Name == "nil" {
			return Ex{s: "0"}
		}
		o := t.obj(x)
		if b := t.env[o]; b != nil && b.kind == bFunc {
			return Ex{s: b.name}
		}
		var pre []string
		l := t.lvalue(x, &pre)
		return Ex{s: t.withPre(pre, l.read()), capped: l.capped}
	case *ast.SelectorExpr:
		if s := t.pkg.Info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
			unsup("method value %s", t.src(e))
		}
		if o := t.pkg.Info.Uses[x.Sel]; o != nil {
			if v, ok := o.(*types.Var); ok && !v.IsField() {
				l := t.globalLV(v)
				return Ex{s: l.read()}
			}
		}
		var pre []string
		l := t.lvalue(x, &pre)
		return Ex{s: t.withPre(pre, l.read()), eff: len(pre) > 0, capped: l.capped}
	case *ast.IndexExpr:
		if m, ok := t.typeOf(x.X).Underlying().(*types.Map); ok {
			_ = m
			nm := t.ty.why(t.typeOf(x.X))
			return Ex{s: fmt.Sprintf("(lookup_%s %s %s)", nm, atom(t.expr(x.X).s), atom(t.plain(x.Index))), eff: true}
		}
		var pre []string
		base := t.lvalueBase(x.X, &pre)
		bt := t.typeOf(x.X)
		if p, ok := bt.Underlying().(*types.Pointer); ok {
			base = t.derefLV(base, bt)
			bt = p.Elem()
		}
		suf := t.ty.why(bt)[3:]
		fn := "idx"
		if base.capped {
			fn = "cidx"
		}
		ix := t.expr(x.Index)
		return Ex{s: t.withPre(pre, fmt.Sprintf("(%s%s %s %s)", fn, suf, atom(base.read()), atom(ix.s))), eff: ix.eff || len(pre) > 0}
	case *ast.StarExpr:
		var pre []string
		l := t.lvalue(x, &pre)
		return Ex{s: t.withPre(pre, l.read()), eff: len(pre) > 0}
	case *ast.SliceExpr:
		return t.sliceExpr(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			a := t.expr(x.X)
			return Ex{s: "(not " + atom(a.s) + ")", eff: a.eff}
		case token.SUB:
			a := t.expr(x.X)
			return Ex{s: fmt.Sprintf("(neg_%s %s)", kindName(t.typeOf(e)), atom(a.s)), eff: a.eff}
		case token.XOR:
			a := t.expr(x.X)
			k := kindName(t.typeOf(e))
			if k[0] == 'u' {
				return Ex{s: fmt.Sprintf("(%s - %s)", maxOf(k), atom(a.s)), eff: a.eff}
			}
			return Ex{s: fmt.Sprintf("(-1 - %s)", atom(a.s)), eff: a.eff}
		case token.AND:
			return t.addrOf(x)
		}
		unsup("unary %s", x.Op)
	case *ast.BinaryExpr:
		return t.binary(x)
	case *ast.CallExpr:
		return t.call(x)
	case *ast.CompositeLit:
		return t.composite(x, t.typeOf(x))
	case *ast.FuncLit:
		unsup("function literal")
	}
	unsup("expression %T %s", e, t.src(e))
	return Ex{}
}

func (t *Tr) addrOf(x *ast.UnaryExpr) Ex {
	pt := t.typeOf(x).Underlying().(*types.Pointer)
	mode := t.ty.mode(pt.Elem())
	inner := unparen(x.X)
	if cl, ok := inner.(*ast.CompositeLit); ok {
		v := t.composite(cl, pt.Elem())
		if mode == "heap" {
			return Ex{s: fmt.Sprintf("(hnew_%s %s)", t.ty.recOf(pt.Elem()).Name, atom(v.s)), eff: true}
		}
		if mode == "const" {
			n := t.ty.recOf(pt.Elem()).Name
			return Ex{s: fmt.Sprintf("(any int ensures { result <> 0 /\\ dr_%s result = %s })", n, v.s), eff: true}
		}
		return v
	}
	if w := t.ty.why(pt.Elem()); w == "int" && mode == "ref" {
		// an object whose representation is not looked into
		if _, ok := inner.(*ast.Ident); ok {
			return t.expr(inner)
		}
	}
	if mode == "heap" {
		// address of a designated global object
		if id, ok := inner.(*ast.Ident); ok {
			if g, ok := t.u.Globals["&"+id.Name]; ok {
				return Ex{s: g}
			}
		}
	}
	if mode == "value" || mode == "unique" || mode == "ref" {
		unsup("address-of used as a value: %s", t.src(x))
	}
	unsup("address-of %s", t.src(x))
	return Ex{}
}

func (t *Tr) composite(x *ast.CompositeLit, typ types.Type) Ex {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		switch t.ty.mode(u.Elem()) {
		case "heap":
			v := t.composite(x, u.Elem())
			return Ex{s: fmt.Sprintf("(hnew_%s %s)", t.ty.recOf(u.Elem()).Name, atom(v.s)), eff: true}
		}
		return t.composite(x, u.Elem())
	case *types.Struct:
		rec := t.ty.recOf(typ)
		vals := map[string]string{}
		eff := false
		var pre []string
		for i, el := range x.Elts {
			name := ""
			var ve ast.Expr
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name = kv.Key.(*ast.Ident).Name
				ve = kv.Value
			} else {
				name = u.Field(i).Name()
				ve = el
			}
			rf := rec.field(name)
			if rf == nil {
				t.dropped[rec.GoName+"."+name] = true
				continue
			}
			ex := t.exprTo(ve, rf.T, rf.Capped)
			if ex.eff && len(x.Elts) > 1 {
				n := t.fresh("f")
				pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
				ex.s = n
				eff = true
			}
			vals[name] = ex.s
		}
		var xs []string
		for _, f := range rec.Fields {
			v, ok := vals[f.Go]
			if !ok {
				if f.Capped {
					s := f.Type[3:]
					v = fmt.Sprintf("{c%s_a = empty%s; c%s_n = 0}", s, s, s)
				} else {
					v = t.ty.zero(f.T)
				}
			}
			xs = append(xs, f.Why+" = "+v)
		}
		return Ex{s: t.withPre(pre, "{ "+strings.Join(xs, "; ")+" }"), eff: eff}
	case *types.Slice, *types.Array:
		var el types.Type
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
			if len(x.Elts) == 0 {
				return Ex{s: t.ty.zero(typ)}
			}
		}
		suf := t.ty.why(typ)[3:]
		s := "empty" + suf
		var pre []string
		for _, e := range x.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				unsup("keyed slice literal")
			}
			var ex Ex
			if cl, ok := e.(*ast.CompositeLit); ok {
				ex = t.composite(cl, el)
			} else {
				ex = t.exprTo(e, el, false)
			}
			if ex.eff {
				n := t.fresh("f")
				pre = append(pre, fmt.Sprintf("let %s = %s in", n, ex.s))
				ex.s = n
			}
			s = fmt.Sprintf("(snoc%s %s %s)", suf, s, atom(ex.s))
		}
		return Ex{s: t.withPre(pre, s), eff: len(pre) > 0}
	case *types.Map:
		if len(x.Elts) == 0 {
			return Ex{s: "empty_" + t.ty.why(typ)}
		}
	}
	unsup("composite literal of %s", typ)
	return Ex{}
}

// windowLV is the lvalue of a slice expression: writes to it are writes to that part of its operand.
func (t *Tr) windowLV(x *ast.SliceExpr, pre *[]string) *LV {
	if x.Slice3 {
		unsup("3-index slice")
	}
	base := t.lvalueBase(x.X, pre)
	bt := t.typeOf(x.X)
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		base = t.derefLV(base, bt)
		bt = p.Elem()
	}
	suf := t.ty.why(bt)[3:]
	pin := func(s string) string {
		if isSimple(s) {
			return s
		}
		n := t.fresh("w")
		*pre = append(*pre, fmt.Sprintf("let %s = %s in", n, s))
		return n
	}
	lo := "0"
	if x.Low != nil {
		lo = pin(t.expr(x.Low).s)
	}
	hi := ""
	switch {
	case x.High != nil:
		hi = pin(t.expr(x.High).s)
	case base.capped:
		hi = pin(fmt.Sprintf("%s.c%s_n", atom(base.read()), suf))
	default:
		hi = pin(fmt.Sprintf("(plen%s %s)", suf, atom(base.read())))
	}
	l := base.clone()
	l.sels = append(l.sels, Sel{lo: lo, hi: hi, suf: suf, arrC: base.capped})
	l.typ = t.typeOf(x)
	l.capped = false
	return l
}

// droppedField reports whether e selects a field that the unit leaves out of the model.
func (t *Tr) droppedField(e ast.Expr) bool {
	se, ok := unparen(e).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	s := t.pkg.Info.Selections[se]
	if s == nil || s.Kind() != types.FieldVal || len(s.Index()) != 1 {
		return false
	}
	r := s.Recv()
	if p, ok := r.Underlying().(*types.Pointer); ok {
		r = p.Elem()
	}
	n, ok := types.Unalias(r).(*types.Named)
	return ok && t.u.Drop[sname(n)+"."+s.Obj().Name()]
}

func (t *Tr) sliceExpr(x *ast.SliceExpr) Ex {
	if x.Slice3 {
		unsup("3-index slice")
	}
	if at, ok := t.typeOf(x.X).Underlying().(*types.Array); ok && x.High != nil {
		// no elements yet, in the storage of an array field that is outside the model (so read by nothing else)
		if n, ok := t.constInt(x.High); ok && n.Sign() == 0 && t.droppedField(x.X) {
			return Ex{s: "empty" + t.ty.why(types.NewSlice(at.Elem()))[3:]}
		}
	}
	var pre []string
	base := t.lvalueBase(x.X, &pre)
	bt := t.typeOf(x.X)
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		base = t.derefLV(base, bt)
		bt = p.Elem()
	}
	suf := t.ty.why(bt)[3:]
	b := atom(base.read())
	lo := "0"
	loZero := true
	if x.Low != nil {
		if n, ok := t.constInt(x.Low); !ok || n.Sign() != 0 {
			loZero = false
			lo = atom(t.expr(x.Low).s)
		}
	}
	if base.capped {
		hi := fmt.Sprintf("%s.c%s_n", b, suf)
		if x.High != nil {
			hi = atom(t.expr(x.High).s)
		}
		if loZero {
			return Ex{s: t.withPre(pre, fmt.Sprintf("(creslice%s %s %s)", suf, b, hi)), eff: true, capped: true}
		}
		return Ex{s: t.withPre(pre, fmt.Sprintf("(cslice%s %s %s %s)", suf, b, lo, hi)), eff: true}
	}
	hi := fmt.Sprintf("(plen%s %s)", suf, b)
	if x.High != nil {
		hi = atom(t.expr(x.High).s)
	} else if loZero {
		return Ex{s: t.withPre(pre, b)}
	}
	return Ex{s: t.withPre(pre, fmt.Sprintf("(slice%s %s %s %s)", suf, b, lo, hi)), eff: true}
}

func maxOf(k string) string {
	switch k {
	case "u8":
		return "255"
	case "u16":
		return "65535"
	case "u32":
		return "4294967295"
	case "u64":
		return "18446744073709551615"
	}
	unsup("maxOf %s", k)
	return ""
}

func kindBits(k string) int {
	var n int
	fmt.Sscanf(k[1:], "%d", &n)
	return n
}

// bits returns an upper bound on the number of bits of the non-negative value e (or -1).
func (t *Tr) maxBits(e ast.Expr) int {
	e = unparen(e)
	if n, ok := t.constInt(e); ok {
		if n.Sign() < 0 {
			return -1
		}
		return n.BitLen()
	}
	switch x := e.(type) {
	case *ast.CallExpr:
		if tv, ok := t.pkg.Info.Types[x.Fun]; ok && tv.IsType() && len(x.Args) == 1 {
			a := t.maxBits(x.Args[0])
			bits, uns, ok := intKind(tv.Type)
			if !ok {
				return -1
			}
			if !uns {
				bits--
			}
			if a >= 0 && a <= bits {
				return a
			}
			if uns {
				return bits
			}
			return -1
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.SHL:
			if n, ok := t.constInt(x.Y); ok {
				a := t.maxBits(x.X)
				bits, uns, _ := intKind(t.typeOf(e))
				if !uns {
					bits--
				}
				if a >= 0 && a+int(n.Int64()) <= bits {
					return a + int(n.Int64())
				}
			}
		case token.SHR:
			if n, ok := t.constInt(x.Y); ok {
				if a := t.maxBits(x.X); a >= 0 {
					if r := a - int(n.Int64()); r > 0 {
						return r
					}
					return 0
				}
			}
		case token.OR, token.XOR:
			a, b := t.maxBits(x.X), t.maxBits(x.Y)
			if a >= 0 && b >= 0 {
				return max(a, b)
			}
		case token.AND:
			a, b := t.maxBits(x.X), t.maxBits(x.Y)
			if a >= 0 && b >= 0 {
				return min(a, b)
			}
			return max(a, b)
		}
	}
	if bits, uns, ok := intKind(t.typeOf(e)); ok && uns {
		return bits
	}
	return -1
}

// lowZeros returns a lower bound on the number of trailing zero bits.
func (t *Tr) lowZeros(e ast.Expr) int {
	e = unparen(e)
	if n, ok := t.constInt(e); ok {
		if n.Sign() == 0 {
			return 64
		}
		return int(new(big.Int).Abs(n).TrailingZeroBits())
	}
	switch x := e.(type) {
	case *ast.CallExpr:
		if tv, ok := t.pkg.Info.Types[x.Fun]; ok && tv.IsType() && len(x.Args) == 1 {
			return t.lowZeros(x.Args[0])
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.SHL:
			if n, ok := t.constInt(x.Y); ok {
				return int(n.Int64()) + t.lowZeros(x.X)
			}
		case token.OR, token.ADD:
			return min(t.lowZeros(x.X), t.lowZeros(x.Y))
		case token.AND:
			if n, ok := t.constInt(x.Y); ok && n.Sign() > 0 {
				return int(n.TrailingZeroBits())
			}
		}
	}
	return 0
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func isMask(n *big.Int) (int, bool) { // n = 2^k - 1
	if n.Sign() < 0 {
		return 0, false
	}
	m := new(big.Int).Add(n, big.NewInt(1))
	k := m.BitLen() - 1
	return k, m.Cmp(pow2(k)) == 0
}

func (t *Tr) arith(op token.Token, xe, ye ast.Expr, typ types.Type, xs, ys string) string {
	a, b := atom(xs), atom(ys)
	k := kindName(typ)
	switch op {
	case token.ADD:
		return fmt.Sprintf("(add_%s %s %s)", k, a, b)
	case token.SUB:
		return fmt.Sprintf("(sub_%s %s %s)", k, a, b)
	case token.MUL:
		return fmt.Sprintf("(mul_%s %s %s)", k, a, b)
	case token.QUO:
		return fmt.Sprintf("(quo_%s %s %s)", k, a, b)
	case token.REM:
		return fmt.Sprintf("(rem_%s %s %s)", k, a, b)
	case token.SHL:
		if n, ok := t.constInt(ye); ok {
			sh := int(n.Int64())
			mb := -1
			if xe != nil {
				mb = t.maxBits(xe)
			}
			lim := kindBits(k)
			if k[0] == 'i' {
				lim--
			}
			if mb >= 0 && mb+sh <= lim {
				return fmt.Sprintf("(%s * %s)", a, pow2(sh))
			}
			if k[0] == 'u' {
				return fmt.Sprintf("(mod (%s * %s) %s)", a, pow2(sh), pow2(kindBits(k)))
			}
			return fmt.Sprintf("(mul_%s %s %s)", k, a, pow2(sh))
		}
		return fmt.Sprintf("(shl_%s %s %s)", k, a, b)
	case token.SHR:
		if n, ok := t.constInt(ye); ok {
			return fmt.Sprintf("(div %s %s)", a, pow2(int(n.Int64())))
		}
		return fmt.Sprintf("(shr_%s %s %s)", k, a, b)
	case token.AND:
		if ye != nil {
			if n, ok := t.constInt(ye); ok {
				if kk, ok := isMask(n); ok {
					return fmt.Sprintf("(mod %s %s)", a, pow2(kk))
				}
			}
		}
		if xe != nil {
			if n, ok := t.constInt(xe); ok {
				if kk, ok := isMask(n); ok {
					return fmt.Sprintf("(mod %s %s)", b, pow2(kk))
				}
			}
		}
		// x & (1<<k - 1)
		if be, ok := unparenE(ye).(*ast.BinaryExpr); ok && be.Op == token.SUB {
			if one, ok := t.constInt(be.Y); ok && one.Cmp(big.NewInt(1)) == 0 {
				if sh, ok := unparenE(be.X).(*ast.BinaryExpr); ok && sh.Op == token.SHL {
					if c, ok := t.constInt(sh.X); ok && c.Cmp(big.NewInt(1)) == 0 {
						return fmt.Sprintf("(lowmask_%s %s %s)", k, a, atom(t.expr(sh.Y).s))
					}
				}
			}
		}
		return fmt.Sprintf("(and_%s %s %s)", k, a, b)
	case token.OR:
		if xe != nil && ye != nil {
			mx, my := t.maxBits(xe), t.maxBits(ye)
			if my >= 0 && my <= t.lowZeros(xe) || mx >= 0 && mx <= t.lowZeros(ye) {
				return fmt.Sprintf("(%s + %s)", a, b)
			}
			if lz := t.lowZeros(xe); k[0] == 'u' && lz > 0 && lz < kindBits(k) {
				return fmt.Sprintf("(orl_%s %s %s %s)", k, pow2(lz), a, b)
			}
			if lz := t.lowZeros(ye); k[0] == 'u' && lz > 0 && lz < kindBits(k) {
				return fmt.Sprintf("(orl_%s %s %s %s)", k, pow2(lz), b, a)
			}
			if k[0] == 'u' && my >= 0 && my < kindBits(k) {
				return fmt.Sprintf("(orz_%s %s %s %s)", k, pow2(my), a, b)
			}
			if k[0] == 'u' && mx >= 0 && mx < kindBits(k) {
				return fmt.Sprintf("(orz_%s %s %s %s)", k, pow2(mx), b, a)
			}
		}
		// x | y<<n for a variable n
		for i, e := range []ast.Expr{ye, xe} {
			if e == nil || k[0] != 'u' {
				continue
			}
			if sh, ok := unparenE(e).(*ast.BinaryExpr); ok && sh.Op == token.SHL {
				if _, cn := t.constInt(sh.Y); cn || kindName(t.typeOf(sh)) != k {
					continue
				}
				n := t.expr(sh.Y)
				if n.eff {
					continue
				}
				if i == 0 {
					return fmt.Sprintf("(ors_%s %s %s %s)", k, atom(n.s), a, b)
				}
				return fmt.Sprintf("(ors_%s %s %s %s)", k, atom(n.s), b, a)
			}
		}
		return fmt.Sprintf("(or_%s %s %s)", k, a, b)
	case token.XOR:
		return fmt.Sprintf("(xor_%s %s %s)", k, a, b)
	case token.AND_NOT:
		if ye != nil {
			if n, ok := t.constInt(ye); ok {
				if kk, ok := isMask(n); ok {
					return fmt.Sprintf("(%s - mod %s %s)", a, a, pow2(kk))
				}
			}
		}
		return fmt.Sprintf("(andnot_%s %s %s)", k, a, b)
	}
	unsup("operator %s", op)
	return ""
}

func unparenE(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return unparen(e)
}

func (t *Tr) binary(x *ast.BinaryExpr) Ex {
	switch x.Op {
	case token.LAND, token.LOR:
		a, b := t.expr(x.X), t.expr(x.Y)
		op := "&&"
		if x.Op == token.LOR {
			op = "||"
		}
		return Ex{s: fmt.Sprintf("(%s %s %s)", atom(a.s), op, atom(b.s)), eff: a.eff || b.eff}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return t.compare(x)
	}
	typ := t.typeOf(x)
	if isString(typ) {
		a, b := t.expr(x.X), t.expr(x.Y)
		return Ex{s: fmt.Sprintf("(catB %s %s)", atom(a.s), atom(b.s)), eff: a.eff || b.eff}
	}
	a, b := t.expr(x.X), t.expr(x.Y)
	var pre []string
	if a.eff && b.eff {
		n := t.fresh("a")
		pre = append(pre, fmt.Sprintf("let %s = %s in", n, a.s))
		a.s = n
	}
	return Ex{s: t.withPre(pre, t.arith(x.Op, x.X, x.Y, typ, a.s, b.s)), eff: a.eff || b.eff}
}

// opaquePtr: a pointer to an object whose representation is not looked into
func (t *Tr) opaquePtr(p *types.Pointer) bool {
	_, ok := p.Elem().Underlying().(*types.Struct)
	return ok && t.ty.why(p.Elem()) == "int"
}

func (t *Tr) compare(x *ast.BinaryExpr) Ex {
	// comparison with nil
	if t.isNil(x.X) || t.isNil(x.Y) {
		e := x.X
		if t.isNil(x.X) {
			e = x.Y
		}
		typ := t.typeOf(e)
		var s string
		switch typ.Underlying().(type) {
		case *types.Slice:
			ex := t.exprRep(e, false)
			s = fmt.Sprintf("(is_nil%s %s)", t.ty.why(typ)[3:], atom(ex.s))
		case *types.Map:
			s = fmt.Sprintf("(is_nil_%s %s)", t.ty.why(typ), atom(t.expr(e).s))
		default:
			if p, ok := typ.Underlying().(*types.Pointer); ok {
				if m := t.ty.mode(p.Elem()); m != "heap" && m != "const" && !t.opaquePtr(p) {
					unsup("nil comparison of %s pointer %s", m, t.src(e))
				}
			}
			s = fmt.Sprintf("(%s = 0)", atom(t.expr(e).s))
		}
		if x.Op == token.NEQ {
			s = "(not " + s + ")"
		}
		return Ex{s: s, eff: true}
	}
	typ := t.typeOf(x.X)
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		typ = t.typeOf(x.Y)
	}
	if u, ok := typ.Underlying().(*types.Pointer); ok {
		if m := t.ty.mode(u.Elem()); m != "heap" && m != "const" {
			if r, ok := t.staticPtrEq(x.X, x.Y); ok {
				if x.Op == token.NEQ {
					r = !r
				}
				return Ex{s: fmt.Sprint(r)}
			}
		}
	}
	a, b := t.exprRep(x.X, false), t.exprRep(x.Y, false)
	op := map[token.Token]string{token.EQL: "=", token.NEQ: "<>", token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[x.Op]
	var pre []string
	if a.eff && b.eff {
		n := t.fresh("a")
		pre = append(pre, fmt.Sprintf("let %s = %s in", n, a.s))
		a.s = n
	}
	var s string
	if isString(typ) {
		switch x.Op {
		case token.EQL:
			s = fmt.Sprintf("(str_eq %s %s)", atom(a.s), atom(b.s))
		case token.NEQ:
			s = fmt.Sprintf("(not (str_eq %s %s))", atom(a.s), atom(b.s))
		case token.LSS:
			s = fmt.Sprintf("(str_lt %s %s)", atom(a.s), atom(b.s))
		case token.GTR:
			s = fmt.Sprintf("(str_lt %s %s)", atom(b.s), atom(a.s))
		case token.LEQ:
			s = fmt.Sprintf("(not (str_lt %s %s))", atom(b.s), atom(a.s))
		case token.GEQ:
			s = fmt.Sprintf("(not (str_lt %s %s))", atom(a.s), atom(b.s))
		}
		return Ex{s: t.withPre(pre, s), eff: a.eff || b.eff}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			s = fmt.Sprintf("(bool_eq %s %s)", atom(a.s), atom(b.s))
			if x.Op == token.NEQ {
				s = "(not " + s + ")"
			}
			return Ex{s: t.withPre(pre, s), eff: a.eff || b.eff}
		}
	case *types.Pointer:
		if m := t.ty.mode(u.Elem()); m != "heap" && m != "const" {
			// s == &info.suffix : decided statically from the path of s
			if r, ok := t.staticPtrEq(x.X, x.Y); ok {
				if x.Op == token.NEQ {
					r = !r
				}
				return Ex{s: fmt.Sprint(r)}
			}
			unsup("pointer comparison %s", t.src(x))
		}
	case *types.Interface:
	default:
		unsup("comparison of %s", typ)
	}
	return Ex{s: t.withPre(pre, fmt.Sprintf("(%s %s %s)", atom(a.s), op, atom(b.s))), eff: a.eff || b.eff}
}

func (t *Tr) staticPtrEq(a, b ast.Expr) (res, ok bool) {
	var pre []string
	get := func(e ast.Expr) *LV {
		e = unparen(e)
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
			return t.lvalue(u.X, &pre)
		}
		if id, ok := e.(*ast.Ident); ok {
			if bd := t.env[t.obj(id)]; bd != nil && bd.kind == bPath {
				return bd.lv
			}
		}
		return nil
	}
	l, r := get(a), get(b)
	if l == nil || r == nil || len(pre) > 0 {
		return false, false
	}
	return l.read() == r.read(), true
}

// ---------- helper: sorted list of map keys for stable output ----------

func sortedFuncs(m map[*types.Func]bool) []*types.Func {
	var r []*types.Func
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return funcKey(r[i]) < funcKey(r[j]) })
	return r
}

// ptrConv reports whether c converts a pointer to a pointer to a type with the same underlying type.
func ptrConv(p *Pkg, c *ast.CallExpr) bool {
	tv, ok := p.Info.Types[c.Fun]
	if !ok || !tv.IsType() || len(c.Args) != 1 {
		return false
	}
	a, ok := p.Info.Types[c.Args[0]]
	if !ok {
		return false
	}
	to, ok1 := tv.Type.Underlying().(*types.Pointer)
	from, ok2 := a.Type.Underlying().(*types.Pointer)
	return ok1 && ok2 && types.Identical(to.Elem().Underlying(), from.Elem().Underlying())
}
