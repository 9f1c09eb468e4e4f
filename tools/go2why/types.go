package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Unsupported is panicked (and caught per function) when the source leaves the subset.
type Unsupported struct{ msg string }

func unsup(f string, a ...any) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

type SeqInst struct {
	Suffix string
	Elem   string // why elem type
	Rng    string // predicate on v, "" if none
	Deps   []string
	Zero   string
	Nil    bool
}

type RecField struct {
	Go, Why, Type string
	T             types.Type
	Capped        bool
}

type Rec struct {
	Name   string
	GoName string
	Fields []RecField
	Deref  bool // const mode: needs deref function
	Heap   bool
}

type Types struct {
	u      *Unit
	seqs   map[string]*SeqInst
	maps   map[string]string
	recs   map[string]*Rec
	order  []string // emission order: "seq:X", "rec:name", "map:..."
	inprog map[string]bool
}

func newTypes(u *Unit) *Types {
	return &Types{u: u, seqs: map[string]*SeqInst{}, recs: map[string]*Rec{}, maps: map[string]string{}, inprog: map[string]bool{}}
}

func qual(p *types.Package) string { return p.Name() }

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// short type name without package for repo types
func sname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if strings.HasPrefix(p.Path(), modPath) {
			return ""
		}
		return p.Name()
	})
}

func lowerFirst(s string) string {
	if s == "" {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}

func basicKind(t types.Type) (types.BasicKind, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind(), true
	}
	return 0, false
}

// intKind returns (bits, unsigned, ok).
func intKind(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, false, true
	case types.Int32:
		return 32, false, true
	case types.Int16:
		return 16, false, true
	case types.Int8:
		return 8, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint8:
		return 8, true, true
	}
	return 0, false, false
}

func kindName(t types.Type) string {
	bits, uns, ok := intKind(t)
	if !ok {
		unsup("not an integer type: %s", t)
	}
	if uns {
		return fmt.Sprintf("u%d", bits)
	}
	return fmt.Sprintf("i%d", bits)
}

// foreign: a type of another module, whose representation is not looked into
func foreign(n *types.Named) bool {
	p := n.Obj().Pkg()
	return p != nil && p.Path() != modPath && !strings.HasPrefix(p.Path(), modPath+"/")
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ty *Types) mode(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if m := ty.u.Modes[sname(n)]; m != "" {
			return m
		}
	}
	return "ref"
}

func (ty *Types) suffixFor(e types.Type) string {
	if s := ty.u.SeqName["[]"+sname(e)]; s != "" {
		return s
	}
	if s := ty.u.SeqName[sname(e)]; s != "" {
		return s
	}
	switch u := e.Underlying().(type) {
	case *types.Basic:
		if isString(e) {
			return "S"
		}
		switch u.Kind() {
		case types.Uint8:
			return "B"
		case types.Int, types.Int64:
			return "I"
		case types.Uint32:
			return "U32"
		case types.Uint64, types.Uint, types.Uintptr:
			return "U64"
		case types.Int32:
			return "R"
		case types.Bool:
			return "Bool"
		}
	case *types.Slice:
		return "S" + ty.suffixFor(u.Elem())
	}
	s := ty.why(e)
	s = strings.ReplaceAll(s, " ", "_")
	if s == "int" {
		return "P" // pointers
	}
	return "_" + s
}

// why returns the WhyML type of Go type t.
func (ty *Types) why(t types.Type) string {
	if o := ty.u.Opaque[sname(t)]; o != "" {
		return o
	}
	switch u := t.(type) {
	case *types.Alias:
		return ty.why(types.Unalias(t))
	case *types.Named:
		if u.Obj().Name() == "Seq" && u.Obj().Pkg() != nil && u.Obj().Pkg().Path() == "iter" && u.TypeArgs().Len() == 1 {
			return ty.seqOf(u.TypeArgs().At(0))
		}
		if s, ok := u.Underlying().(*types.Struct); ok {
			if foreign(u) && ty.mode(u) == "ref" {
				return "int"
			}
			return ty.rec(u, s).Name
		}
		if u.Obj().Name() == "error" && u.Obj().Pkg() == nil {
			return "int"
		}
		return ty.why(u.Underlying())
	case *types.Basic:
		if _, _, ok := intKind(t); ok {
			return "int"
		}
		if isString(t) {
			ty.seqT("B", "int", "0 <= v < 256", nil, "0", ty.u.Nilable["[]byte"])
			return "seqB"
		}
		if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
			return "bool"
		}
		if u.Info()&types.IsInteger != 0 {
			return "int"
		}
	case *types.Slice:
		return ty.seqOf(u.Elem())
	case *types.Array:
		return ty.seqOf(u.Elem())
	case *types.Pointer:
		switch ty.mode(u.Elem()) {
		case "heap", "const":
			ty.why(u.Elem())
			return "int"
		}
		return ty.why(u.Elem())
	case *types.Map:
		k, v := ty.why(u.Key()), ty.why(u.Elem())
		nm := "map_" + mangle(k) + "_" + mangle(v)
		if _, ok := ty.maps[nm]; !ok {
			ty.maps[nm] = k + "\x00" + v + "\x00" + ty.zero(u.Elem())
			ty.order = append(ty.order, "map:"+nm)
		}
		return nm
	case *types.Interface:
		return "int"
	case *types.Signature:
		return "int"
	case *types.Tuple:
		if u.Len() == 0 {
			return "unit"
		}
		if u.Len() == 1 {
			return ty.why(u.At(0).Type())
		}
		var xs []string
		for i := 0; i < u.Len(); i++ {
			xs = append(xs, ty.why(u.At(i).Type()))
		}
		return "(" + strings.Join(xs, ", ") + ")"
	}
	unsup("type %s", t)
	return ""
}

func mangle(s string) string {
	return strings.NewReplacer(" ", "_", "(", "", ")", "", ",", "_").Replace(s)
}

func (ty *Types) seqOf(e types.Type) string {
	suf := ty.suffixFor(e)
	ty.seqT(suf, ty.why(e), ty.rngText(e, "v"), nil, ty.zero(e), ty.u.Nilable["[]"+sname(e)])
	return "seq" + suf
}

func (ty *Types) seqT(suf, elem, rng string, deps []string, zero string, nl bool) {
	nl = nl || suf == "B" && ty.u.Nilable["[]byte"]
	if ty.seqs[suf] != nil {
		if ty.seqs[suf].Elem != elem {
			unsup("sequence suffix %s used for %s and %s", suf, ty.seqs[suf].Elem, elem)
		}
		return
	}
	ty.seqs[suf] = &SeqInst{Suffix: suf, Elem: elem, Rng: rng, Zero: zero, Nil: nl}
	ty.order = append(ty.order, "seq:"+suf)
}

func (ty *Types) recName(n *types.Named) string { return lowerFirst(n.Obj().Name()) + "_t" }

func (ty *Types) rec(n *types.Named, s *types.Struct) *Rec {
	name := ty.recName(n)
	if r := ty.recs[name]; r != nil {
		return r
	}
	r := &Rec{Name: name, GoName: sname(n)}
	ty.recs[name] = r
	pre, ok := ty.u.Prefix[sname(n)]
	if !ok {
		pre = lowerFirst(n.Obj().Name()) + "_"
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if ty.u.Drop[sname(n)+"."+f.Name()] {
			continue
		}
		capd := ty.u.Capped[sname(n)+"."+f.Name()]
		var wt string
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(Unsupported); ok {
						wt = ""
						return
					}
					panic(e)
				}
			}()
			wt = ty.why(f.Type())
		}()
		if wt == "" {
			continue
		}
		if capd {
			wt = "cap" + strings.TrimPrefix(wt, "seq")
		}
		r.Fields = append(r.Fields, RecField{Go: f.Name(), Why: pre + f.Name(), Type: wt, T: f.Type(), Capped: capd})
	}
	switch ty.mode(n) {
	case "heap":
		r.Heap = true
	case "const":
		r.Deref = true
	}
	ty.order = append(ty.order, "rec:"+name)
	return r
}

func (ty *Types) recOf(t types.Type) *Rec {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		unsup("anonymous struct %s", t)
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		unsup("not a struct: %s", t)
	}
	return ty.rec(n, s)
}

func (r *Rec) field(name string) *RecField {
	for i := range r.Fields {
		if r.Fields[i].Go == name {
			return &r.Fields[i]
		}
	}
	return nil
}

var rangeOf = map[string]string{
	"i64": "-0x8000000000000000 <= %s <= 0x7fffffffffffffff",
	"i32": "-0x80000000 <= %s <= 0x7fffffff",
	"i16": "-0x8000 <= %s <= 0x7fff",
	"i8":  "-128 <= %s <= 127",
	"u64": "0 <= %s <= 0xffffffffffffffff",
	"u32": "0 <= %s <= 0xffffffff",
	"u16": "0 <= %s <= 0xffff",
	"u8":  "0 <= %s <= 255",
}

// rngText is the machine-range fact implied by Go type t for WhyML term x ("" if none).
func (ty *Types) rngText(t types.Type, x string) string {
	if ty.u.Opaque[sname(t)] != "" {
		return ""
	}
	if _, _, ok := intKind(t); ok {
		return fmt.Sprintf(rangeOf[kindName(t)], x)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || foreign(n) {
			return ""
		}
		r := ty.rec(n, u)
		var xs []string
		for _, f := range r.Fields {
			if f.Capped {
				xs = append(xs, fmt.Sprintf("0 <= %s.%s.c%s_n <= len%s %s.%s.c%s_a <= 0x3fffffffffffffff", x, f.Why, f.Type[3:], f.Type[3:], x, f.Why, f.Type[3:]))
				continue
			}
			if s := ty.rngText(f.T, x+"."+f.Why); s != "" {
				xs = append(xs, s)
			}
		}
		return strings.Join(xs, " /\\ ")
	case *types.Array:
		return fmt.Sprintf("len%s %s = %d", ty.why(t)[3:], x, u.Len())
	case *types.Pointer:
		if m := ty.mode(u.Elem()); m == "ref" || m == "unique" {
			return ty.rngText(u.Elem(), x)
		}
	}
	return ""
}

func (ty *Types) zero(t types.Type) string {
	if o := ty.u.Opaque[sname(t)]; o != "" {
		if o == "int" {
			return "0"
		}
		return "(any " + o + ")"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return "emptyB"
		}
		if u.Info()&types.IsBoolean != 0 {
			return "false"
		}
		return "0"
	case *types.Slice:
		return "nil" + ty.why(t)[3:]
	case *types.Array:
		return fmt.Sprintf("(const%s %d %s)", ty.why(t)[3:], u.Len(), ty.zero(u.Elem()))
	case *types.Pointer:
		switch ty.mode(u.Elem()) {
		case "heap", "const":
			return "0"
		}
		if ty.why(t) == "int" {
			return "0"
		}
		return "(any " + ty.why(t) + ")"
	case *types.Struct:
		if ty.why(t) == "int" {
			return "0"
		}
		r := ty.recOf(t)
		var xs []string
		for _, f := range r.Fields {
			if f.Capped {
				s := f.Type[3:]
				xs = append(xs, fmt.Sprintf("%s = {c%s_a = empty%s; c%s_n = 0}", f.Why, s, s, s))
				continue
			}
			xs = append(xs, f.Why+" = "+ty.zero(f.T))
		}
		return "{ " + strings.Join(xs, "; ") + " }"
	case *types.Map:
		return "nil_" + ty.why(t)
	case *types.Interface, *types.Signature:
		return "0"
	}
	unsup("zero of %s", t)
	return ""
}

const seqTemplate = `
module Seq@
  use int.Int
@USES@
  type seq@
  function len@ seq@ : int
  axiom len@_nonneg: forall s. 0 <= len@ s
  function get@ seq@ int : #
@RNGAX@
  predicate eq@ (s t: seq@)
  axiom eq@_def: forall s t [eq@ s t]. eq@ s t <-> (len@ s = len@ t /\ (forall i [get@ s i]. 0 <= i < len@ s -> get@ s i = get@ t i)@NNEQ@)
  axiom ext@: forall s t [eq@ s t]. eq@ s t -> s = t
  val constant empty@ : seq@
  axiom empty@_len: len@ empty@ = 0
  val constant nil@ : seq@
  axiom nil@_len: len@ nil@ = 0
  val function upd@ (s: seq@) (i: int) (v: #) : seq@
  axiom upd@_len: forall s i v [len@ (upd@ s i v)]. len@ (upd@ s i v) = len@ s
  axiom upd@_get: forall s i j v [get@ (upd@ s i v) j]. 0 <= i < len@ s -> 0 <= j < len@ s -> @RV@get@ (upd@ s i v) j = (if j = i then v else get@ s j)
  axiom upd@_get2: forall s i j v [upd@ s i v, get@ s j]. 0 <= i < len@ s -> 0 <= j < len@ s -> j <> i -> @RV@get@ (upd@ s i v) j = get@ s j
  val function snoc@ (s: seq@) (v: #) : seq@
  axiom snoc@_len: forall s v [snoc@ s v]. len@ (snoc@ s v) = len@ s + 1
  axiom snoc@_get: forall s v i [get@ (snoc@ s v) i]. 0 <= i <= len@ s -> @RV@get@ (snoc@ s v) i = (if i = len@ s then v else get@ s i)
  axiom snoc@_get2: forall s v i [snoc@ s v, get@ s i]. 0 <= i < len@ s -> @RV@get@ (snoc@ s v) i = get@ s i
  axiom snoc@_last: forall s v [snoc@ s v]. @RV@get@ (snoc@ s v) (len@ s) = v
  val function cat@ (s t: seq@) : seq@
  axiom cat@_len: forall s t [cat@ s t]. len@ (cat@ s t) = len@ s + len@ t
  axiom cat@_get: forall s t i [get@ (cat@ s t) i]. 0 <= i < len@ s + len@ t -> get@ (cat@ s t) i = (if i < len@ s then get@ s i else get@ t (i - len@ s))
  axiom cat@_get2: forall s t i [cat@ s t, get@ s i]. 0 <= i < len@ s -> get@ (cat@ s t) i = get@ s i
  axiom cat@_get3: forall s t i [cat@ s t, get@ t i]. 0 <= i < len@ t -> get@ (cat@ s t) (len@ s + i) = get@ t i
  val function sub@ (s: seq@) (i j: int) : seq@
  axiom sub@_len: forall s i j [sub@ s i j]. 0 <= i <= j <= len@ s -> len@ (sub@ s i j) = j - i
  axiom sub@_get: forall s i j k [get@ (sub@ s i j) k]. 0 <= i <= j <= len@ s -> 0 <= k < j - i -> get@ (sub@ s i j) k = get@ s (i + k)
  axiom sub@_get2: forall s i j k [sub@ s i j, get@ s k]. 0 <= i <= k < j <= len@ s -> get@ (sub@ s i j) (k - i) = get@ s k
  val function const@ (n: int) (v: #) : seq@
  axiom const@_len: forall n v [const@ n v]. 0 <= n -> len@ (const@ n v) = n
  axiom const@_get: forall n v i [get@ (const@ n v) i]. 0 <= i < n -> @RV@get@ (const@ n v) i = v
  (* t over the part of s that starts at lo *)
  val function over@ (s: seq@) (lo: int) (t: seq@) : seq@
  axiom over@_len: forall s lo t [over@ s lo t]. len@ (over@ s lo t) = len@ s
  axiom over@_get: forall s lo t i [get@ (over@ s lo t) i]. 0 <= lo -> lo + len@ t <= len@ s -> 0 <= i < len@ s ->
    get@ (over@ s lo t) i = (if lo <= i < lo + len@ t then get@ t (i - lo) else get@ s i)
  axiom over@_get2: forall s lo t i [over@ s lo t, get@ t i]. 0 <= lo -> lo + len@ t <= len@ s -> 0 <= i < len@ t -> get@ (over@ s lo t) (lo + i) = get@ t i
  axiom over@_get3: forall s lo t i [over@ s lo t, get@ s i]. 0 <= lo -> lo + len@ t <= len@ s -> 0 <= i < lo \/ lo + len@ t <= i < len@ s -> get@ (over@ s lo t) i = get@ s i
@NN@
  (* program operations *)
  val plen@ (s: seq@) : int ensures { result = len@ s } ensures { 0 <= result <= 0x3fffffffffffffff }
  val idx@ (s: seq@) (i: int) : # requires { [@expl:index in bounds] 0 <= i < len@ s } ensures { result = get@ s i }@RES@
  val set@ (s: seq@) (i: int) (v: #) : seq@ requires { [@expl:index in bounds] 0 <= i < len@ s } ensures { result = upd@ s i v }
  val slice@ (s: seq@) (i j: int) : seq@ requires { [@expl:slice bounds] 0 <= i <= j <= len@ s } ensures { result = sub@ s i j }
  val make@ (n: int) (z: #) : seq@ requires { [@expl:make length] 0 <= n } ensures { result = const@ n z }
  val anycap@ (s: seq@) : int ensures { len@ s <= result <= 0x3fffffffffffffff }
  val copyinto@ (d: seq@) (s: seq@) : (seq@, int)
    ensures { let (r, n) = result in n = (if len@ s < len@ d then len@ s else len@ d) /\ len@ r = len@ d /\
      (forall i [get@ r i]. 0 <= i < len@ d -> get@ r i = (if i < n then get@ s i else get@ d i))@NNC@ }
  val splice@ (s: seq@) (lo: int) (t: seq@) : seq@ requires { [@expl:slice bounds] 0 <= lo /\ lo + len@ t <= len@ s } ensures { result = over@ s lo t }
  type cap@ = { c@_a : seq@; c@_n : int }
  function plain@ (c: cap@) : seq@ = sub@ c.c@_a 0 c.c@_n
  val pplain@ (c: cap@) : seq@ ensures { result = plain@ c }
  val cidx@ (c: cap@) (i: int) : # requires { [@expl:index in bounds] 0 <= i < c.c@_n } ensures { result = get@ c.c@_a i }@RES@
  val ccap@ (c: cap@) : int ensures { result = len@ c.c@_a } ensures { 0 <= result <= 0x3fffffffffffffff }
  val cset@ (c: cap@) (i: int) (v: #) : cap@ requires { [@expl:index in bounds] 0 <= i < c.c@_n <= len@ c.c@_a } ensures { result = { c@_a = upd@ c.c@_a i v; c@_n = c.c@_n } }
  val creslice@ (c: cap@) (j: int) : cap@ requires { [@expl:slice bounds] 0 <= j <= len@ c.c@_a } ensures { result = { c@_a = c.c@_a; c@_n = j } }
  val cslice@ (c: cap@) (i j: int) : seq@ requires { [@expl:slice bounds] 0 <= i <= j <= len@ c.c@_a } ensures { result = sub@ c.c@_a i j }
  val csplice@ (c: cap@) (lo: int) (t: seq@) : cap@ requires { [@expl:slice bounds] 0 <= lo /\ lo + len@ t <= len@ c.c@_a } ensures { result = { c@_a = over@ c.c@_a lo t; c@_n = c.c@_n } }
  val cappend@ (c: cap@) (s: seq@) : cap@
    requires { 0 <= c.c@_n <= len@ c.c@_a }
    ensures { result.c@_n = c.c@_n + len@ s /\ result.c@_n <= len@ result.c@_a <= 0x3fffffffffffffff }
    ensures { forall i [get@ result.c@_a i]. 0 <= i < result.c@_n -> get@ result.c@_a i = (if i < c.c@_n then get@ c.c@_a i else get@ s (i - c.c@_n)) }
    ensures { c.c@_n + len@ s <= len@ c.c@_a -> len@ result.c@_a = len@ c.c@_a /\ (forall i [get@ result.c@_a i]. result.c@_n <= i < len@ c.c@_a -> get@ result.c@_a i = get@ c.c@_a i) }
  val cclear@ (c: cap@) (z: #) : cap@
    requires { 0 <= c.c@_n <= len@ c.c@_a }
    ensures { result.c@_n = c.c@_n /\ len@ result.c@_a = len@ c.c@_a /\ (forall i [get@ result.c@_a i]. 0 <= i < len@ c.c@_a -> get@ result.c@_a i = (if i < c.c@_n then z else get@ c.c@_a i)) }
  val ofplain@ (s: seq@) : cap@ ensures { result.c@_n = len@ s <= len@ result.c@_a <= 0x3fffffffffffffff } ensures { plain@ result = s }
end
`

func seqModule(si *SeqInst, uses string) string {
	s := seqTemplate
	rngax, rv, res := "", "", ""
	if si.Rng != "" {
		rngax = "  axiom range" + si.Suffix + ": forall s i [get" + si.Suffix + " s i]. let v = get" + si.Suffix + " s i in " + si.Rng
		rv = "(" + si.Rng + ") -> "
		res = " ensures { let v = result in " + si.Rng + " }"
	}
	nn, nneq, nnc := "", "", ""
	if si.Nil {
		nneq = " /\\ (nn@ s <-> nn@ t)"
		nnc = " /\\ (nn@ r <-> nn@ d)"
		nn = `  axiom nn@_len: forall s [len@ s]. len@ s > 0 -> nn@ s
  axiom nil@_nn: not (nn@ nil@)
  axiom empty@_nn: nn@ empty@
  axiom upd@_nn: forall s i v [upd@ s i v]. nn@ (upd@ s i v) <-> nn@ s
  axiom sub@_nn: forall s i j [sub@ s i j]. nn@ (sub@ s i j) <-> nn@ s
  axiom cat@_nn: forall s t [cat@ s t]. nn@ (cat@ s t) <-> (nn@ s \/ len@ t > 0)
  axiom over@_nn: forall s lo t [over@ s lo t]. nn@ (over@ s lo t) <-> nn@ s
  axiom const@_nn: forall n v [const@ n v]. nn@ (const@ n v)`
	} else {
		nn = "  axiom nil@_empty: nil@ = empty@\n  val is_nil@ (s: seq@) : bool ensures { result -> len@ s = 0 }"
	}
	if si.Nil {
		nn += "\n  val is_nil@ (s: seq@) : bool ensures { result <-> not (nn@ s) }"
	}
	if si.Suffix == "B" {
		s = strings.TrimSuffix(strings.TrimRight(s, "\n"), "end") + `
  (* strings compare as byte sequences *)
  val str_eq (s t: seqB) : bool ensures { result <-> s = t } ensures { result <-> eqB s t }
  predicate str_less (s t: seqB) = exists n. 0 <= n <= lenB s /\ n <= lenB t /\ (forall i. 0 <= i < n -> getB s i = getB t i) /\
    ((n = lenB s /\ n < lenB t) \/ (n < lenB s /\ n < lenB t /\ getB s n < getB t n))
  val str_lt (s t: seqB) : bool ensures { result <-> str_less s t }
end
`
	}
	s = strings.ReplaceAll(s, "@USES@", uses)
	s = strings.ReplaceAll(s, "@RNGAX@", rngax)
	s = strings.ReplaceAll(s, "@RV@", rv)
	s = strings.ReplaceAll(s, "@RES@", res)
	s = strings.ReplaceAll(s, "@NNEQ@", nneq)
	s = strings.ReplaceAll(s, "@NNC@", nnc)
	s = strings.ReplaceAll(s, "@NN@", nn)
	s = strings.ReplaceAll(s, "[@", "[\x01")
	s = strings.ReplaceAll(s, "@", si.Suffix)
	s = strings.ReplaceAll(s, "\x01", "@")
	s = strings.ReplaceAll(s, "#", si.Elem)
	if si.Nil {
		s = strings.Replace(s, "  predicate eq"+si.Suffix, "  predicate nn"+si.Suffix+" seq"+si.Suffix+"\n  predicate eq"+si.Suffix, 1)
	}
	return s
}

// emit prints all type modules in dependency order and returns the text and the use lines.
func (ty *Types) emit() (string, string) {
	var b, uses strings.Builder
	for _, o := range ty.order {
		k, n, _ := strings.Cut(o, ":")
		switch k {
		case "seq":
			b.WriteString(seqModule(ty.seqs[n], uses.String()))
			fmt.Fprintf(&uses, "  use Seq%s\n", n)
		case "rec":
			r := ty.recs[n]
			fmt.Fprintf(&b, "\nmodule Rec_%s\n  use int.Int\n  use map.Map\n%s", n, uses.String())
			if len(r.Fields) == 0 {
				fmt.Fprintf(&b, "  type %s\n", n)
			} else {
				fmt.Fprintf(&b, "  type %s = {\n", n)
				for _, f := range r.Fields {
					fmt.Fprintf(&b, "    %s : %s;\n", f.Why, f.Type)
				}
				b.WriteString("  }\n")
			}
			if r.Deref {
				fmt.Fprintf(&b, "  function dr_%s int : %s\n  val deref_%s (p: int) : %s requires { [@expl:nil dereference] p <> 0 } ensures { result = dr_%s p }\n", n, n, n, n, n)
			}
			if r.Heap {
				fmt.Fprintf(&b, "  val ref h_%s : map int %s\n  val ref alloc_%s : int\n", n, n, n)
				fmt.Fprintf(&b, "  val hput_%s (p: int) (v: %s) : unit requires { [@expl:nil dereference] p <> 0 } writes { h_%s } ensures { h_%s = set (old h_%s) p v }\n", n, n, n, n, n)
				fmt.Fprintf(&b, "  val hget_%s (p: int) : %s requires { [@expl:nil dereference] p <> 0 } ensures { result = get h_%s p }\n", n, n, n)
				fmt.Fprintf(&b, "  val hnew_%s (v: %s) : int writes { h_%s, alloc_%s } ensures { result = old alloc_%s + 1 /\\ alloc_%s = result /\\ h_%s = set (old h_%s) result v }\n", n, n, n, n, n, n, n, n)
			}
			b.WriteString("end\n")
			fmt.Fprintf(&uses, "  use Rec_%s\n", n)
		case "map":
			p := strings.Split(ty.maps[n], "\x00")
			fmt.Fprintf(&b, "\nmodule Mod_%s\n%s", n, uses.String())
			fmt.Fprintf(&b, `  type %[1]s
  predicate mem_%[1]s %[1]s %[2]s
  function get_%[1]s %[1]s %[2]s : %[3]s
  predicate isnil_%[1]s %[1]s
  val constant nil_%[1]s : %[1]s
  axiom nil_%[1]s_mem: isnil_%[1]s nil_%[1]s /\ forall k. not (mem_%[1]s nil_%[1]s k)
  axiom isnil_%[1]s_mem: forall m k [isnil_%[1]s m, mem_%[1]s m k]. isnil_%[1]s m -> not (mem_%[1]s m k)
  val is_nil_%[1]s (m: %[1]s) : bool ensures { result <-> isnil_%[1]s m }
  val constant empty_%[1]s : %[1]s
  axiom empty_%[1]s_mem: not (isnil_%[1]s empty_%[1]s) /\ forall k. not (mem_%[1]s empty_%[1]s k)
  function put_%[1]s (m: %[1]s) (k: %[2]s) (v: %[3]s) : %[1]s
  axiom put_%[1]s_nil: forall m k v [put_%[1]s m k v]. not (isnil_%[1]s (put_%[1]s m k v))
  val pput_%[1]s (m: %[1]s) (k: %[2]s) (v: %[3]s) : %[1]s requires { [@expl:write to a nil map] not (isnil_%[1]s m) } ensures { result = put_%[1]s m k v }
  val function del_%[1]s (m: %[1]s) (k: %[2]s) : %[1]s
  axiom del_%[1]s_mem: forall m k k2 [mem_%[1]s (del_%[1]s m k) k2]. mem_%[1]s (del_%[1]s m k) k2 <-> k2 <> k /\ mem_%[1]s m k2
  axiom del_%[1]s_get: forall m k k2 [get_%[1]s (del_%[1]s m k) k2]. k2 <> k -> get_%[1]s (del_%[1]s m k) k2 = get_%[1]s m k2
  axiom del_%[1]s_nil: forall m k [del_%[1]s m k]. isnil_%[1]s (del_%[1]s m k) <-> isnil_%[1]s m
  val clear_%[1]s (m: %[1]s) : %[1]s ensures { (isnil_%[1]s result <-> isnil_%[1]s m) /\ forall k. not (mem_%[1]s result k) }
  axiom put_%[1]s_mem: forall m k v k2 [mem_%[1]s (put_%[1]s m k v) k2]. mem_%[1]s (put_%[1]s m k v) k2 <-> (k2 = k \/ mem_%[1]s m k2)
  axiom put_%[1]s_get: forall m k v k2 [get_%[1]s (put_%[1]s m k v) k2]. get_%[1]s (put_%[1]s m k v) k2 = (if k2 = k then v else get_%[1]s m k2)
  val lookup_%[1]s (m: %[1]s) (k: %[2]s) : %[3]s ensures { if mem_%[1]s m k then result = get_%[1]s m k else result = %[4]s }
  val has_%[1]s (m: %[1]s) (k: %[2]s) : bool ensures { result <-> mem_%[1]s m k }
end
`, n, p[0], p[1], p[2])
			fmt.Fprintf(&uses, "  use Mod_%s\n", n)
		}
	}
	return b.String(), uses.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
