# C10: the matcher.
include set.spec
unit mat
package regexp
use syntax.Inst syntax.Prog regexp.nstate []int []byte []uint32
seq []int32 R
heap syntax.Prog
open syntax.Inst
heap dstate
global &dmatch a_dmatch
prefix syntax.Prog pg_
prefix syntax.Inst in_
prefix matcher m_
prefix nstate z_
prefix dstate d_
prefix Regexp re_
opaque syntax.Regexp int

why
  val constant a_dmatch : int
  (* bits of small numbers, by weight: what Go's bit operations mean *)
  function bt (x w: int) : int = mod (div x w) 2
  axiom or8: forall a b [bitor_u8 a b]. 0 <= a < 256 -> 0 <= b < 256 -> 0 <= bitor_u8 a b < 256 /\
    bt (bitor_u8 a b) 1 = (if bt a 1 = 1 \/ bt b 1 = 1 then 1 else 0) /\
    bt (bitor_u8 a b) 2 = (if bt a 2 = 1 \/ bt b 2 = 1 then 1 else 0) /\
    bt (bitor_u8 a b) 4 = (if bt a 4 = 1 \/ bt b 4 = 1 then 1 else 0) /\
    bt (bitor_u8 a b) 8 = (if bt a 8 = 1 \/ bt b 8 = 1 then 1 else 0) /\
    bt (bitor_u8 a b) 16 = (if bt a 16 = 1 \/ bt b 16 = 1 then 1 else 0) /\
    bt (bitor_u8 a b) 32 = (if bt a 32 = 1 \/ bt b 32 = 1 then 1 else 0) /\
    bt (bitor_u8 a b) 64 = (if bt a 64 = 1 \/ bt b 64 = 1 then 1 else 0) /\
    bt (bitor_u8 a b) 128 = (if bt a 128 = 1 \/ bt b 128 = 1 then 1 else 0)
  predicate sub8 (a b: int) =
    (bt a 1 = 1 -> bt b 1 = 1) /\ (bt a 2 = 1 -> bt b 2 = 1) /\ (bt a 4 = 1 -> bt b 4 = 1) /\ (bt a 8 = 1 -> bt b 8 = 1) /\
    (bt a 16 = 1 -> bt b 16 = 1) /\ (bt a 32 = 1 -> bt b 32 = 1) /\ (bt a 64 = 1 -> bt b 64 = 1) /\ (bt a 128 = 1 -> bt b 128 = 1)
  axiom andnot8: forall a b [bitandnot_u8 a b]. 0 <= a < 256 -> 0 <= b < 256 -> (bitandnot_u8 a b = 0 <-> sub8 a b)
  axiom and32_4: forall a [bitand_u32 a 4]. 0 <= a < 4294967296 -> bitand_u32 a 4 = 4 * bt a 4
  axiom and32_16: forall a [bitand_u32 a 16]. 0 <= a < 4294967296 -> bitand_u32 a 16 = 16 * bt a 16
  function bits8 (x: int) : int = bt x 1 + 2 * bt x 2 + 4 * bt x 4 + 8 * bt x 8 + 16 * bt x 16 + 32 * bt x 32 + 64 * bt x 64 + 128 * bt x 128
  lemma by_bits: forall x. 0 <= x < 256 -> x = bits8 x

  (* programs *)
  function inst (p: prog_t) (x: int) : inst_t = get_inst_t p.pg_Inst x
  function size (p: prog_t) : int = len_inst_t p.pg_Inst
  predicate wfp (p: prog_t) = 0 < size p <= 4294967295 /\ 0 <= p.pg_Start < size p /\
    forall x [get_inst_t p.pg_Inst x]. 0 <= x < size p -> let i = get_inst_t p.pg_Inst x in
      0 <= i.in_Op < 256 /\ 0 <= i.in_Out < 4294967296 /\ 0 <= i.in_Arg < 4294967296 /\
      (i.in_Op = 0 \/ i.in_Op = 1 -> i.in_Out < size p /\ i.in_Arg < size p) /\
      (i.in_Op = 2 \/ i.in_Op = 6 \/ i.in_Op = 3 \/ i.in_Op = 135 -> i.in_Out < size p)
  (* one step without reading input, when the conditions fl hold *)
  predicate eps (p: prog_t) (fl: int) (a b: int)
  axiom eps_def: forall p fl a b [eps p fl a b]. eps p fl a b <-> 0 <= a < size p /\
    let i = inst p a in
    ((i.in_Op = 2 \/ i.in_Op = 6) /\ b = i.in_Out
    \/ (i.in_Op = 0 \/ i.in_Op = 1) /\ (b = i.in_Out \/ b = i.in_Arg)
    \/ i.in_Op = 3 /\ sub8 (mod i.in_Arg 256) fl /\ b = i.in_Out)
  predicate closed (p: prog_t) (fl: int) (x: int -> bool)
  axiom closed_def: forall p fl x [closed p fl x]. closed p fl x <-> forall u v [eps p fl u v]. x u -> eps p fl u v -> x v
  (* b is reached from a: it lies in every closed set that a lies in *)
  predicate reach (p: prog_t) (fl: int) (a b: int)
  val ghost reach_def (p: prog_t) (fl a b: int) : unit ensures { reach p fl a b <-> forall x: int -> bool. x a -> closed p fl x -> x b }
  let ghost reach_refl (p: prog_t) (fl a: int) : unit ensures { reach p fl a a } = reach_def p fl a a
  let ghost reach_trans (p: prog_t) (fl a b c: int) : unit requires { reach p fl a b /\ reach p fl b c } ensures { reach p fl a c }
  = reach_def p fl a b; reach_def p fl b c; reach_def p fl a c
  let ghost reach_step (p: prog_t) (fl a b: int) : unit requires { eps p fl a b } ensures { reach p fl a b /\ forall c. reach p fl b c -> reach p fl a c }
  = reach_def p fl a b; assert { forall x: int -> bool. x a -> closed p fl x -> x b }; assert { reach p fl a b };
    let lemma tr (c: int) : unit requires { reach p fl b c } ensures { reach p fl a c } = reach_trans p fl a b c in ()
  let ghost reach_elim (p: prog_t) (fl a b: int) (x: int -> bool) : unit
    requires { reach p fl a b } requires { x a } requires { closed p fl x } ensures { x b } = reach_def p fl a b
  let ghost eps_mono (p: prog_t) (fl gl u v: int) : unit requires { sub8 fl gl } requires { eps p fl u v } ensures { eps p gl u v } = ()
  let ghost reach_mono (p: prog_t) (fl gl a b: int) : unit requires { sub8 fl gl } requires { reach p fl a b } ensures { reach p gl a b }
  = reach_def p fl a b; reach_def p gl a b;
    let lemma em (u v: int) : unit requires { eps p fl u v } ensures { eps p gl u v } = eps_mono p fl gl u v in
    assert { forall x: int -> bool. closed p gl x -> closed p fl x }
  predicate keepsnew (p: prog_t) (fl: int) (q0 q: seqU32)
  axiom keepsnew_def: forall p fl q0 q [keepsnew p fl q0 q]. keepsnew p fl q0 q <-> forall u v [eps p fl u v]. memU q u -> not (memU q0 u) -> eps p fl u v -> memU q v
  let ghost keep_trans (p: prog_t) (fl: int) (q0 q1 q2: seqU32) : unit
    requires { keepsnew p fl q0 q1 /\ keepsnew p fl q1 q2 } requires { forall x. memU q1 x -> memU q2 x } ensures { keepsnew p fl q0 q2 } = ()
  let ghost keep_add (p: prog_t) (fl: int) (id: int) (q0 q1 q2: seqU32) : unit
    requires { keepsnew p fl q1 q2 } requires { forall x. memU q1 x -> x = id \/ memU q0 x } requires { forall y. eps p fl id y -> memU q2 y }
    ensures { keepsnew p fl q0 q2 } = ()
  predicate keeps (p: prog_t) (fl: int) (q: seqU32) = forall u v [eps p fl u v]. memU q u -> eps p fl u v -> memU q v
  let ghost reach_set (p: prog_t) (fl: int) (q: seqU32) : unit
    requires { keeps p fl q }
    ensures { forall a b [reach p fl a b]. memU q a -> reach p fl a b -> memU q b }
  = let ghost s = pure { fun x -> memU q x } in assert { forall u v. s u -> eps p fl u v -> s v }; assert { closed p fl s };
    let lemma one (a b: int) : unit requires { memU q a } requires { reach p fl a b } ensures { memU q b } = reach_elim p fl a b s in ()

  predicate word (c: int) = 65 <= c <= 90 \/ 97 <= c <= 122 \/ 48 <= c <= 57 \/ c = 95
  (* the instruction reads the byte c *)
  predicate byteok (i: inst_t) (c: int) = i.in_Op = 135 /\ 0 <= c /\
    let ch = if bitand_u32 i.in_Arg 65536 <> 0 /\ 97 <= c <= 122 then c - 32 else c in
    mod (div i.in_Arg 256) 256 <= ch <= mod i.in_Arg 256
  predicate seedB (p: prog_t) (r: seqU32) (c x: int) = x = p.pg_Start \/ exists i. memU r i /\ byteok (inst p i) c /\ x = (inst p i).in_Out
endwhy

func regexp.isWordByte
  ensures [the word bytes are the ASCII letters, digits and the underscore] res0 <-> word c

func regexp.(*matcher).addq
  requires m.m_prog <> 0 /\ wfp (get h_prog_t m.m_prog)
  requires wf q /\ capacity q = size (get h_prog_t m.m_prog) /\ id < capacity q
  variant capacity q - lenU32 q.set_dense
  at entry: let ghost p = pure { get h_prog_t m.m_prog } in reach_refl p flag id
  at call Add#1 before: room q id
  at call Add#1 after: let ghost q1 = pure { q } in ()
  at call addq#1 after: assert { keepsnew p flag q1.set_dense q.set_dense }
  at call addq#4 after: assert { keepsnew p flag q1.set_dense q.set_dense }
  at call addq#3 after: assert { keepsnew p flag q1.set_dense q2.set_dense }; assert { keepsnew p flag q2.set_dense q.set_dense }; keep_trans p flag q1.set_dense q2.set_dense q.set_dense
  at exit: assert { forall y. eps p flag id y -> mem q y }; keep_add p flag id q_in.set_dense q1.set_dense q.set_dense
  at call addq#1 before: assert { eps p flag id (inst p id).in_Out }; reach_step p flag id (pure { (inst p id).in_Out })
  at call addq#2 before: assert { eps p flag id (inst p id).in_Out }; reach_step p flag id (pure { (inst p id).in_Out })
  at call addq#2 after: assert { keepsnew p flag q1.set_dense q.set_dense }; let ghost q2 = pure { q } in ()
  at call addq#3 before: assert { eps p flag id (inst p id).in_Arg }; reach_step p flag id (pure { (inst p id).in_Arg })
  at call addq#4 before: assert { eps p flag id (inst p id).in_Out }; reach_step p flag id (pure { (inst p id).in_Out })
  ensures [the set stays valid] wf q /\ capacity q = capacity (old q) /\ lenU32 q.set_dense >= lenU32 (old q).set_dense
  ensures [what was in the set stays, and the instruction is added] mem q id /\ forall x. mem (old q) x -> mem q x
  ensures [only what is reached without input is added] forall x. mem q x -> mem (old q) x \/ reach (get h_prog_t m.m_prog) flag id x
  ensures [everything one step from an added instruction is in the set] keepsnew (get h_prog_t m.m_prog) flag (old q).set_dense q.set_dense

func regexp.(*matcher).stepEmpty
  requires m.m_prog <> 0 /\ wfp (get h_prog_t m.m_prog)
  requires wf nextq /\ capacity nextq = size (get h_prog_t m.m_prog)
  requires wf runq /\ capacity runq = size (get h_prog_t m.m_prog)
  at entry: let ghost p = pure { get h_prog_t m.m_prog } in ()
  loop 1
    invariant wf nextq /\ capacity nextq = size p
    invariant forall x. mem nextq x -> exists a. mem runq a /\ reach p flag a x
    invariant forall j. 0 <= j < ix1 -> mem nextq (getU32 runq.set_dense j)
    invariant keeps p flag nextq.set_dense
  at call addq#1 before: assert { mem runq id }
  at exit: reach_set p flag nextq.set_dense
  ensures [the set stays valid] wf nextq /\ capacity nextq = size (get h_prog_t m.m_prog)
  ensures [exactly what is reached without input from the given set] forall b. mem nextq b <-> exists a. mem runq a /\ reach (get h_prog_t m.m_prog) flag a b

func regexp.(*matcher).stepByte
  requires m.m_prog <> 0 /\ wfp (get h_prog_t m.m_prog)
  requires wf nextq /\ capacity nextq = size (get h_prog_t m.m_prog)
  requires wf runq /\ capacity runq = size (get h_prog_t m.m_prog)
  requires -1 <= c < 256
  at entry: let ghost p = pure { get h_prog_t m.m_prog } in ()
  at call addq#1 before: reach_refl p flag (pure { p.pg_Start })
  loop 1
    invariant wf nextq /\ capacity nextq = size p
    invariant mem nextq p.pg_Start
    invariant match_ <-> exists j. 0 <= j < ix1 /\ (inst p (getU32 runq.set_dense j)).in_Op = 4
    invariant forall j. 0 <= j < ix1 -> byteok (inst p (getU32 runq.set_dense j)) c -> mem nextq (inst p (getU32 runq.set_dense j)).in_Out
    invariant forall y. mem nextq y -> exists x. seedB p runq.set_dense c x /\ reach p flag x y
  at call addq#2 before: assert { memU runq.set_dense id /\ byteok (inst p id) c }
  ensures [the set stays valid] wf nextq /\ capacity nextq = size (get h_prog_t m.m_prog)
  ensures [it reports whether the given set holds a match] match_ <-> exists x. mem runq x /\ (inst (get h_prog_t m.m_prog) x).in_Op = 4
  ensures [every instruction after a byte that reads c, and the start, is in the set] forall x. seedB (get h_prog_t m.m_prog) runq.set_dense c x -> mem nextq x
  ensures [only what is reached from those is in the set] forall y. mem nextq y -> exists x. seedB (get h_prog_t m.m_prog) runq.set_dense c x /\ reach (get h_prog_t m.m_prog) flag x y

# --- states as strings ---
extern binary.PutUvarint inout=0
  val x_binary_PutUvarint (ref b: seqB) (x: int) : int
    writes { b }
    requires { [@expl:room for a varint] lenB b >= 10 }
    ensures { lenB b = lenB (old b) /\ result = lenB (uvenc x) /\ subB b 0 result = uvenc x }
extern binary.Uvarint
  val x_binary_Uvarint (b: seqB) : (int, int)
    ensures { let (v, n) = result in n <= lenB b /\ forall x. 0 <= x < 18446744073709551616 /\ isprefix (uvenc x) b -> v = x /\ n = lenB (uvenc x) }
extern sort.Ints inout=0
  val x_sort_Ints (ref s: seqI) : unit
    writes { s }
    ensures { lenI s = lenI (old s) } ensures { forall x. memI s x <-> memI (old s) x }

why
  predicate isprefix (p s: seqB) = lenB p <= lenB s /\ forall i [getB s i|getB p i]. 0 <= i < lenB p -> getB s i = getB p i
  function uvenc (x: int) : seqB
  axiom uvenc_len: forall x [uvenc x]. 1 <= lenB (uvenc x) <= 10
  predicate memI (d: seqI) (x: int)
  axiom memI_def: forall d x [memI d x]. memI d x <-> exists i. 0 <= i < lenI d /\ getI d i = x
  predicate u32s (d: seqI) = forall i [getI d i]. 0 <= i < lenI d -> 0 <= getI d i < 4294967296
  function prev (d: seqI) (j: int) : int = if j = 0 then 4294967295 else getI d (j - 1)
  (* the step from the previous number, modulo 2^32 *)
  function gap (d: seqI) (j: int) : int = if getI d j >= prev d j then getI d j - prev d j else getI d j - prev d j + 4294967296
  function encr (d: seqI) (j: int) : seqB
  axiom encr_end: forall d j [encr d j]. j >= lenI d -> encr d j = emptyB
  val ghost encr_k (d: seqI) (j: int) : unit ensures { 0 <= j < lenI d -> encr d j = catB (uvenc (gap d j)) (encr d (j+1)) }
  function encof (f: int) (d: seqI) : seqB = catB (uvenc 0) (catB (uvenc f) (encr d 0))
  (* binary.Uvarint's contract again, for use in lemmas *)
  val ghost uvarint (b: seqB) : (int, int)
    ensures { let (v, n) = result in n <= lenB b /\ forall x. 0 <= x < 18446744073709551616 /\ isprefix (uvenc x) b -> v = x /\ n = lenB (uvenc x) }
  let ghost first_inj (x y: int) (a b: seqB) : unit
    requires { 0 <= x < 18446744073709551616 /\ 0 <= y < 18446744073709551616 } requires { catB (uvenc x) a = catB (uvenc y) b }
    ensures { x = y /\ a = b }
  = let s = pure { catB (uvenc x) a } in assert { isprefix (uvenc x) s /\ isprefix (uvenc y) s };
    let (v, _) = uvarint s in assert { v = x /\ v = y };
    assert { forall i. 0 <= i < lenB a -> getB a i = getB s (lenB (uvenc x) + i) };
    assert { forall i. 0 <= i < lenB b -> getB b i = getB s (lenB (uvenc x) + i) }; assert { eqB a b }
  let rec ghost encr_inj (c d: seqI) (j: int) : unit
    requires { u32s c /\ u32s d /\ 0 <= j <= lenI c /\ j <= lenI d } requires { encr c j = encr d j } requires { prev c j = prev d j }
    ensures { lenI c = lenI d /\ forall i. j <= i < lenI c -> getI c i = getI d i }
    variant { lenI c - j }
  = encr_k c j; encr_k d j;
    if j < plenI c then begin
      if j < plenI d then begin first_inj (pure { gap c j }) (pure { gap d j }) (pure { encr c (j+1) }) (pure { encr d (j+1) }); assert { getI c j = getI d j }; encr_inj c d (j+1) end
      else begin assert { lenB (encr c j) > 0 }; assert { encr d j = emptyB } end
    end else if j < plenI d then begin assert { lenB (encr d j) > 0 }; assert { encr c j = emptyB } end
  let ghost enc_inj (f g: int) (c d: seqI) : unit
    requires { 0 <= f < 4294967296 /\ 0 <= g < 4294967296 /\ u32s c /\ u32s d } requires { encof f c = encof g d }
    ensures { f = g /\ c = d }
  = first_inj 0 0 (pure { catB (uvenc f) (encr c 0) }) (pure { catB (uvenc g) (encr d 0) });
    first_inj f g (pure { encr c 0 }) (pure { encr d 0 }); encr_inj c d 0; assert { eqI c d }
  (* what an encoding stands for: justified by enc_inj *)
  function efl (e: seqB) : int
  function eids (e: seqB) : seqI
  axiom enc_of: forall f d [encof f d]. 0 <= f < 4294967296 -> u32s d -> efl (encof f d) = f /\ eids (encof f d) = d
  predicate isenc (n: int) (e: seqB) = e = encof (efl e) (eids e) /\ 0 <= efl e < 4294967296 /\ forall i [getI (eids e) i]. 0 <= i < lenI (eids e) -> 0 <= getI (eids e) i < n
  predicate stands (n: int) (e: seqB) (z: nstate_t) = isenc n e /\ efl e = z.z_flag /\ forall x. memI (eids e) x <-> mem z.z_q x
endwhy

func regexp.(*nstate).enc
  requires wf z.z_q /\ z.z_partial = 0
  at call Ints#1 before: let ghost ids0 = pure { ids } in ()
  at call Ints#1 after: assert { forall x. memI ids x <-> mem z.z_q x };
     assert { forall x. mem z.z_q x -> 0 <= x < capacity z.z_q }; assert { forall i. 0 <= i < lenI ids -> memI ids (getI ids i) };
     assert { forall i. 0 <= i < lenI ids -> 0 <= getI ids i < capacity z.z_q };
     assert { u32s ids }; let ghost e = pure { encof z.z_flag ids } in assert { eqB (catB buf (encr ids 0)) e }
  at call PutUvarint#1 after: assert { eqB (subB v 0 n) (uvenc 0) }
  at call PutUvarint#2 after: assert { eqB (subB v 0 n) (uvenc z.z_flag) }
  loop 1
    invariant lenI ids = ix1 /\ forall j. 0 <= j < ix1 -> getI ids j = getU32 z.z_q.set_dense j
  loop 2
    invariant last = prev ids ix2
    invariant lenB v = 10
    invariant catB buf (encr ids ix2) = e
  at loop 2 begin: encr_k ids ix2; let ghost b0 = pure { buf } in ()
  at loop 2 end: assert { eqB (catB buf (encr ids (ix2+1))) (catB b0 (catB (uvenc (gap ids ix2)) (encr ids (ix2+1)))) }
  at return *: assert { eqB buf e }
  ensures [the string stands for the state] stands (capacity z.z_q) res0 z

func regexp.(*nstate).dec
  requires wf z.z_q /\ isenc (capacity z.z_q) s
  at entry: let ghost f0 = pure { efl s } in let ghost d0 = pure { eids s } in let ghost ref j = 0 in
     let ghost t1 = pure { catB (uvenc f0) (encr d0 0) } in assert { s = catB (uvenc 0) t1 }
  at call Uvarint#1 before: assert { isprefix (uvenc 0) b }
  at call =z.partial#1 before: assert { eqB b t1 }
  at call Uvarint#2 before: assert { isprefix (uvenc f0) b }
  at call =z.flag#1 before: assert { eqB b (encr d0 0) }
  loop 1
    invariant 0 <= j <= lenI d0
    invariant b = encr d0 j
    invariant last = prev d0 j
    invariant wf z.z_q /\ capacity z.z_q = capacity z_in.z_q
    invariant forall x. mem z.z_q x <-> exists i. 0 <= i < j /\ getI d0 i = x
    variant lenI d0 - j
  at loop 1 begin: encr_k d0 j; assert { j < lenI d0 }; assert { isprefix (uvenc (gap d0 j)) b }
  at call Add#1 before: assert { last = getI d0 j }; assert { eqB b (encr d0 (j+1)) }
  at loop 1 end: j <- j + 1
  at exit: encr_k d0 j; assert { j = lenI d0 }; assert { forall x. mem z.z_q x <-> memI d0 x }
  ensures [the state is what the string stands for] wf z.z_q /\ capacity z.z_q = capacity (old z).z_q /\ z.z_partial = 0 /\ stands (capacity z.z_q) s z

# --- the automaton ---
why
  (* the conditions that hold between the byte before (state flags f) and the byte c (10: newline, -1: end of text) *)
  function before (f c: int) : int
  axiom before_def: forall f c [before f c]. before f c =
    (if bt f 1 = 1 then 1 else 0) + (if c = 10 \/ c = -1 then 2 else 0) + (if bt f 4 = 1 then 4 else 0) + (if c = -1 then 8 else 0) +
    (if (bt f 16 = 1 /\ not (word c)) \/ (bt f 16 <> 1 /\ word c) then 16 else 32)
  lemma before_bits: forall f c [before f c]. let b = before f c in 0 <= b < 64 /\
    (bt b 1 = 1 <-> bt f 1 = 1) /\ (bt b 2 = 1 <-> (c = 10 \/ c = -1)) /\ (bt b 4 = 1 <-> bt f 4 = 1) /\ (bt b 8 = 1 <-> c = -1) /\
    (bt b 16 = 1 <-> ((bt f 16 = 1 /\ not (word c)) \/ (bt f 16 <> 1 /\ word c))) /\ (bt b 32 = 1 <-> not (bt b 16 = 1)) /\ bt b 64 = 0 /\ bt b 128 = 0
  function after (c: int) : int = if c = 10 then 1 else 0
  function sflag (c: int) : int = (if c = 10 then 1 else 0) + (if word c then 16 else 0)
  (* instruction i is live in state e when c comes next *)
  predicate live (p: prog_t) (e: seqB) (c i: int)
  axiom live_def: forall p e c i [live p e c i]. live p e c i <-> exists x. memI (eids e) x /\ reach p (before (efl e) c) x i
  predicate hit (p: prog_t) (e: seqB) (c: int)
  axiom hit_def: forall p e c [hit p e c]. hit p e c <-> exists i. live p e c i /\ (inst p i).in_Op = 4
  predicate seed (p: prog_t) (e: seqB) (c x: int)
  axiom seed_def: forall p e c x [seed p e c x]. seed p e c x <-> x = p.pg_Start \/ exists i. live p e c i /\ byteok (inst p i) c /\ x = (inst p i).in_Out
  predicate goodnext (p: prog_t) (e: seqB) (c: int) (e2: seqB)
  axiom goodnext_def: forall p e c e2 [goodnext p e c e2]. goodnext p e c e2 <-> efl e2 = sflag c /\
    (forall x [memI (eids e2) x|seed p e c x]. seed p e c x -> memI (eids e2) x) /\
    (forall x [memI (eids e2) x]. memI (eids e2) x -> exists y. seed p e c y /\ reach p (after c) y x)

  predicate owned (ds: map_seqB_int) (h: map int dstate_t) (r: int) = let e = (get h r).d_enc in mem_map_seqB_int ds e /\ get_map_seqB_int ds e = r
  predicate okn (p: prog_t) (ds: map_seqB_int) (sl: int) (h: map int dstate_t) (r: int) (e: seqB) (c: int)
  axiom okn_def: forall p ds sl h r e c [okn p ds sl h r e c]. okn p ds sl h r e c <-> r = 0
    \/ (c = 10 /\ r = sl /\ not (hit p e 10))
    \/ (c <> 10 /\ r = a_dmatch /\ hit p e c)
    \/ (c <> 10 /\ r <> a_dmatch /\ owned ds h r /\ not (hit p e c) /\ goodnext p e c (get h r).d_enc)
  predicate okst (p: prog_t) (ds: map_seqB_int) (sl: int) (h: map int dstate_t) (al: int) (q: int) (e: seqB)
  axiom okst_def: forall p ds sl h al q e [okst p ds sl h al q e]. okst p ds sl h al q e <->
    a_dmatch <> q /\ 0 < q <= al /\ (get h q).d_enc = e /\ isenc (size p) e /\ lenP (get h q).d_next = 256 /\
    forall c [getP (get h q).d_next c]. 0 <= c < 256 -> okn p ds sl h (getP (get h q).d_next c) e c
  (* every cached state and every cached transition is right *)
  predicate dinv (p: prog_t) (ds: map_seqB_int) (sl: int) (h: map int dstate_t) (al: int) =
    0 < a_dmatch <= al /\ not (isnil_map_seqB_int ds) /\
    forall e [mem_map_seqB_int ds e]. mem_map_seqB_int ds e -> okst p ds sl h al (get_map_seqB_int ds e) e
  predicate mbase (m: matcher_t) (p: prog_t) = m.m_prog <> 0 /\ m.m_z1.z_partial = 0 /\ wfp p /\
    wf m.m_z1.z_q /\ capacity m.m_z1.z_q = size p /\ wf m.m_z2.z_q /\ capacity m.m_z2.z_q = size p
  predicate complete (p: prog_t) (h: map int dstate_t) (q: int) = let r = get h q in
    (r.d_matchNL <-> hit p r.d_enc 10) /\ (r.d_matchEOT <-> hit p r.d_enc (-1))
  predicate idle (h: map int dstate_t) (q: int) = forall c [getP (get h q).d_next c]. 0 <= c < 256 -> getP (get h q).d_next c = 0
  (* states are only added, and those added are complete *)
  predicate grow (p: prog_t) (ds: map_seqB_int) (h: map int dstate_t) (al: int) (ds2: map_seqB_int) (h2: map int dstate_t) (al2: int) =
    al <= al2 /\
    (forall e [mem_map_seqB_int ds e]. mem_map_seqB_int ds e -> mem_map_seqB_int ds2 e /\ get_map_seqB_int ds2 e = get_map_seqB_int ds e) /\
    (forall q [get h2 q]. q <= al -> get h2 q = get h q) /\
    (forall e [mem_map_seqB_int ds2 e]. mem_map_seqB_int ds2 e -> not (mem_map_seqB_int ds e) ->
       let q = get_map_seqB_int ds2 e in al < q /\ complete p h2 q /\ idle h2 q)
  let ghost add_state (p: prog_t) (ds: map_seqB_int) (sl: int) (h: map int dstate_t) (al: int) (e: seqB) (r: dstate_t) : unit
    requires { dinv p ds sl h al } requires { not (mem_map_seqB_int ds e) }
    requires { r.d_enc = e /\ isenc (size p) e /\ lenP r.d_next = 256 /\ forall c. 0 <= c < 256 -> getP r.d_next c = 0 }
    ensures { dinv p (put_map_seqB_int ds e (al+1)) sl (set h (al+1) r) (al+1) }
  = let ghost ds2 = pure { put_map_seqB_int ds e (al+1) } in let ghost h2 = pure { set h (al+1) r } in
    let lemma st (e2: seqB) : unit requires { mem_map_seqB_int ds2 e2 } ensures { okst p ds2 sl h2 (al+1) (get_map_seqB_int ds2 e2) e2 }
    = let ghost q = pure { get_map_seqB_int ds2 e2 } in
      if pure { e2 = e } then begin assert { q = al + 1 }; assert { forall c. 0 <= c < 256 -> okn p ds2 sl h2 (getP (get h2 q).d_next c) e2 c } end
      else begin
        assert { okst p ds sl h al q e2 };
        assert { get h2 q = get h q };
        let lemma nx (c: int) : unit requires { 0 <= c < 256 } ensures { okn p ds2 sl h2 (getP (get h2 q).d_next c) e2 c }
        = let ghost r2 = pure { getP (get h q).d_next c } in assert { okn p ds sl h r2 e2 c };
          if pure { owned ds h r2 } then begin assert { okst p ds sl h al r2 (get h r2).d_enc }; assert { get h2 r2 = get h r2 }; assert { owned ds2 h2 r2 } end in ()
      end in ()
  (* changing what dinv does not look at *)
  let ghost keep_state (p: prog_t) (ds: map_seqB_int) (sl: int) (h: map int dstate_t) (al: int) (q: int) (r: dstate_t) : unit
    requires { dinv p ds sl h al } requires { r.d_enc = (get h q).d_enc }
    requires { r.d_next = (get h q).d_next \/ (lenP r.d_next = 256 /\ forall c. 0 <= c < 256 -> okn p ds sl h (getP r.d_next c) r.d_enc c) }
    ensures { dinv p ds sl (set h q r) al }
  = let ghost h2 = pure { set h q r } in
    let lemma own (x: int) : unit requires { owned ds h x } ensures { owned ds h2 x /\ (get h2 x).d_enc = (get h x).d_enc } = () in
    let lemma st (e2: seqB) : unit requires { mem_map_seqB_int ds e2 } ensures { okst p ds sl h2 al (get_map_seqB_int ds e2) e2 }
    = let ghost w = pure { get_map_seqB_int ds e2 } in
      assert { okst p ds sl h al w e2 };
      let lemma nx (c: int) : unit requires { 0 <= c < 256 } ensures { okn p ds sl h2 (getP (get h2 w).d_next c) e2 c }
      = let ghost r2 = pure { getP (get h2 w).d_next c } in assert { okn p ds sl h r2 e2 c } in () in ()
endwhy

func regexp.(*matcher).computeNext
  requires mbase m (get h_prog_t m.m_prog) /\ dinv (get h_prog_t m.m_prog) m.m_dstate m.m_startLine h_dstate_t alloc_dstate_t
  requires d <> 0 /\ isenc (size (get h_prog_t m.m_prog)) (get h_dstate_t d).d_enc
  requires -1 <= c < 256
  at entry: let ghost p = pure { get h_prog_t m.m_prog } in let ghost e = pure { (get h_dstate_t d).d_enc } in ()
  at call stepEmpty#1 before: assert { 0 <= efl e < 4294967296 }; assert { bits8 flag = bits8 (before (efl e) c) }; assert { flag = before (efl e) c }
  at call stepEmpty#1 after: assert { forall i. mem m.m_z2.z_q i <-> live p e c i };
     assert { forall x. seedB p m.m_z2.z_q.set_dense c x <-> seed p e c x }; assert { (exists x. mem m.m_z2.z_q x /\ (inst p x).in_Op = 4) <-> hit p e c }
  at call cache#1 before: assert { flag = after c /\ m.m_z1.z_flag = sflag c }
  ensures [the automaton stays right] mbase m (get h_prog_t m.m_prog) /\ dinv (get h_prog_t m.m_prog) m.m_dstate m.m_startLine h_dstate_t alloc_dstate_t
  ensures [states are only added, and those added are complete] grow (get h_prog_t m.m_prog) (old m).m_dstate (old h_dstate_t) (old alloc_dstate_t) m.m_dstate h_dstate_t alloc_dstate_t
  ensures [it is the match state exactly when a match ends here] res0 = a_dmatch <-> hit (get h_prog_t m.m_prog) (get (old h_dstate_t) d).d_enc c
  ensures [otherwise it is the state after the byte] res0 <> a_dmatch -> owned m.m_dstate h_dstate_t res0 /\ goodnext (get h_prog_t m.m_prog) (get (old h_dstate_t) d).d_enc c (get h_dstate_t res0).d_enc

func regexp.(*matcher).cache
  requires mbase m (get h_prog_t m.m_prog) /\ dinv (get h_prog_t m.m_prog) m.m_dstate m.m_startLine h_dstate_t alloc_dstate_t
  requires wf z.z_q /\ capacity z.z_q = size (get h_prog_t m.m_prog) /\ z.z_partial = 0
  at entry: let ghost p = pure { get h_prog_t m.m_prog } in let ghost z0 = pure { z } in
    let ghost ds0 = pure { m.m_dstate } in let ghost h0 = pure { h_dstate_t } in let ghost al0 = pure { alloc_dstate_t } in ()
  at call =m.dstate[enc]#1 before: add_state p ds0 m.m_startLine h0 al0 enc (pure { get h_dstate_t d })
  at call =d.matchNL#1 before: let ghost ds1 = pure { m.m_dstate } in let ghost h1 = pure { h_dstate_t } in let ghost al1 = pure { alloc_dstate_t } in ()
  at call =d.matchNL#1 after: let ghost ds2 = pure { m.m_dstate } in let ghost h2 = pure { h_dstate_t } in let ghost al2 = pure { alloc_dstate_t } in
    assert { forall e. mem_map_seqB_int ds2 e -> not (mem_map_seqB_int ds1 e) -> let q = get_map_seqB_int ds2 e in al1 < q <= al2 /\ complete p h2 q /\ idle h2 q };
    assert { (get h2 d).d_enc = enc /\ idle h2 d /\ ((get h2 d).d_matchNL <-> hit p enc 10) }
  at call =d.matchEOT#1 after: 
    assert { forall e. mem_map_seqB_int m.m_dstate e -> not (mem_map_seqB_int ds2 e) -> let q = get_map_seqB_int m.m_dstate e in al2 < q /\ complete p h_dstate_t q /\ idle h_dstate_t q };
    assert { forall e. mem_map_seqB_int ds2 e -> not (mem_map_seqB_int ds1 e) -> let q = get_map_seqB_int m.m_dstate e in q = get_map_seqB_int ds2 e /\ get h_dstate_t q = get h2 q };
    assert { forall e. mem_map_seqB_int ds2 e -> not (mem_map_seqB_int ds1 e) -> let q = get_map_seqB_int m.m_dstate e in al1 < q /\ complete p h_dstate_t q /\ idle h_dstate_t q };
    assert { complete p h_dstate_t d /\ idle h_dstate_t d /\ get_map_seqB_int m.m_dstate enc = d /\ d = al0 + 1 };
    assert { forall q. q <= al0 -> get h_dstate_t q = get h0 q };
    assert { forall e. mem_map_seqB_int ds1 e <-> (e = enc \/ mem_map_seqB_int ds0 e) };
    assert { forall e. mem_map_seqB_int m.m_dstate e -> not (mem_map_seqB_int ds0 e) -> e = enc \/ not (mem_map_seqB_int ds1 e) };
    assert { forall e. mem_map_seqB_int m.m_dstate e -> not (mem_map_seqB_int ds0 e) -> let q = get_map_seqB_int m.m_dstate e in al0 < q };
    assert { forall e. mem_map_seqB_int m.m_dstate e -> not (mem_map_seqB_int ds0 e) -> let q = get_map_seqB_int m.m_dstate e in complete p h_dstate_t q /\ idle h_dstate_t q };
    assert { forall e. mem_map_seqB_int ds0 e -> mem_map_seqB_int m.m_dstate e /\ get_map_seqB_int m.m_dstate e = get_map_seqB_int ds0 e }
  ensures [the automaton stays right] mbase m (get h_prog_t m.m_prog) /\ dinv (get h_prog_t m.m_prog) m.m_dstate m.m_startLine h_dstate_t alloc_dstate_t
  ensures [states are only added, and those added are complete] grow (get h_prog_t m.m_prog) (old m).m_dstate (old h_dstate_t) (old alloc_dstate_t) m.m_dstate h_dstate_t alloc_dstate_t
  ensures [the state stands for the given set and flags] owned m.m_dstate h_dstate_t res0 /\ res0 <> a_dmatch /\ stands (size (get h_prog_t m.m_prog)) (get h_dstate_t res0).d_enc z

# --- texts ---
why
  (* state flags and conditions known at position k of a text whose line starts at s *)
  function lflag (l: seqB) (s: int) (bt: bool) (k: int) : int
  axiom lflag_def: forall l s bt k [lflag l s bt k]. lflag l s bt k = (if k = s then (if bt /\ s = 0 then 5 else 1) else if word (getB l (k-1)) then 16 else 0)
  function lknown (s: int) (bt: bool) (k: int) : int
  axiom lknown_def: forall s bt k [lknown s bt k]. lknown s bt k = (if k = s then (if bt /\ s = 0 then 5 else 1) else 0)
  (* the threads of the unanchored search for p in l from the line start s: those waiting at position k,
     and the instructions they reach there when c comes next *)
  predicate wait (p: prog_t) (l: seqB) (s: int) (bt: bool) (k x: int)
  predicate tlive (p: prog_t) (l: seqB) (s: int) (bt: bool) (k c i: int)
  axiom tlive_def: forall p l s bt k c i [tlive p l s bt k c i]. tlive p l s bt k c i <-> exists x. wait p l s bt k x /\ reach p (before (lflag l s bt k) c) x i
  axiom wait_0: forall p l s bt x [wait p l s bt s x]. wait p l s bt s x <-> x = p.pg_Start
  val ghost wait_s (p: prog_t) (l: seqB) (s: int) (bt: bool) (k: int) : unit
    ensures { s <= k -> forall x [wait p l s bt (k+1) x]. wait p l s bt (k+1) x <-> x = p.pg_Start \/ exists i. tlive p l s bt k (getB l k) i /\ byteok (inst p i) (getB l k) /\ x = (inst p i).in_Out }
  (* a match ends at position k when c comes next *)
  predicate thit (p: prog_t) (l: seqB) (s: int) (bt: bool) (k c: int)
  axiom thit_def: forall p l s bt k c [thit p l s bt k c]. thit p l s bt k c <-> exists i. tlive p l s bt k c i /\ (inst p i).in_Op = 4
  predicate nonl (l: seqB) (i j: int) = forall k [getB l k]. i <= k < j -> getB l k <> 10
  predicate linestart (l: seqB) (s: int) = s = 0 \/ (0 < s <= lenB l /\ getB l (s-1) = 10)
  (* l[s..e) is a line *)
  predicate isline (l: seqB) (s e: int)
  axiom isline_def: forall l s e [isline l s e]. isline l s e <-> 0 <= s <= e <= lenB l /\ linestart l s /\ nonl l s e /\ (e = lenB l \/ getB l e = 10)
  (* the line contains a match *)
  predicate lmatch (p: prog_t) (l: seqB) (bt et: bool) (s e: int)
  axiom lmatch_def: forall p l bt et s e [lmatch p l bt et s e]. lmatch p l bt et s e <->
    (exists k. s <= k < e /\ thit p l s bt k (getB l k)) \/ thit p l s bt e 10 \/ (et /\ e = lenB l /\ thit p l s bt e (-1))
  predicate none (p: prog_t) (l: seqB) (bt et: bool) (n: int) = forall s e [isline l s e]. isline l s e -> e < n -> not (lmatch p l bt et s e)
  predicate first (p: prog_t) (l: seqB) (bt et: bool) (r: int) =
    (r = -1 /\ none p l bt et (lenB l + 1)) \/
    (r >= 0 /\ none p l bt et r /\ exists s. isline l s r /\ lmatch p l bt et s r)
  let ghost one_line (l: seqB) (s e: int) : unit requires { isline l s e }
    ensures { forall s2 e2 [isline l s2 e2]. isline l s2 e2 -> (s <= e2 <= e -> s2 = s /\ e2 = e) /\ (e2 < s \/ e2 >= e) }
  = ()

  (* state e holds the threads at position k *)
  predicate srep (p: prog_t) (l: seqB) (s: int) (bt: bool) (k: int) (e: seqB)
  axiom srep_def: forall p l s bt k e [srep p l s bt k e]. srep p l s bt k e <-> efl e = lflag l s bt k /\
    (forall x [memI (eids e) x|wait p l s bt k x]. wait p l s bt k x -> memI (eids e) x) /\
    (forall x [memI (eids e) x]. memI (eids e) x -> exists y. wait p l s bt k y /\ reach p (lknown s bt k) y x)
  let ghost srep_live (p: prog_t) (l: seqB) (s: int) (bt: bool) (k: int) (e: seqB) (c: int) : unit
    requires { srep p l s bt k e } requires { s <= k /\ -1 <= c < 256 }
    ensures { forall i. live p e c i <-> tlive p l s bt k c i } ensures { hit p e c <-> thit p l s bt k c }
  = let ghost b = pure { before (lflag l s bt k) c } in let ghost g = pure { lknown s bt k } in assert { sub8 g b };
    let lemma a (i: int) : unit requires { live p e c i } ensures { tlive p l s bt k c i }
    = let ghost x = any int ensures { memI (eids e) result /\ reach p b result i } in
      let ghost y = any int ensures { wait p l s bt k result /\ reach p g result x } in
      reach_mono p g b y x; reach_trans p b y x i in
    let lemma d (i: int) : unit requires { tlive p l s bt k c i } ensures { live p e c i } = () in ()
  let ghost srep_next (p: prog_t) (l: seqB) (s: int) (bt: bool) (k: int) (e e2: seqB) : unit
    requires { srep p l s bt k e } requires { s <= k < lenB l /\ getB l k <> 10 } requires { goodnext p e (getB l k) e2 }
    ensures { srep p l s bt (k+1) e2 }
  = srep_live p l s bt k e (getB l k); wait_s p l s bt k; assert { forall x. seed p e (getB l k) x <-> wait p l s bt (k+1) x };
    assert { lknown s bt (k+1) = 0 /\ lflag l s bt (k+1) = sflag (getB l k) }
  predicate startset (p: prog_t) (f: int) (e: seqB) = efl e = f /\ forall x [memI (eids e) x]. memI (eids e) x <-> reach p f p.pg_Start x
  let ghost srep_start (p: prog_t) (l: seqB) (s: int) (bt: bool) (e: seqB) : unit
    requires { startset p (if bt /\ s = 0 then 5 else 1) e } ensures { srep p l s bt s e }
  = reach_refl p (if bt && s = 0 then 5 else 1) (pure { p.pg_Start })
  (* the state in which a match was seen and the end of the line is looked for *)
  predicate waiting (h: map int dstate_t) = let r = get h a_dmatch in r.d_matchNL /\ r.d_matchEOT /\ lenP r.d_next = 256 /\
    forall c [getP r.d_next c]. 0 <= c < 256 -> getP r.d_next c = (if c = 10 then 0 else a_dmatch)
  predicate allc (p: prog_t) (ds: map_seqB_int) (h: map int dstate_t) = forall e [mem_map_seqB_int ds e]. mem_map_seqB_int ds e -> complete p h (get_map_seqB_int ds e)
  (* a matcher ready for use *)
  predicate ready (m: matcher_t) (p: prog_t) (h: map int dstate_t) (al: int) =
    mbase m p /\ dinv p m.m_dstate m.m_startLine h al /\ allc p m.m_dstate h /\ waiting h /\
    owned m.m_dstate h m.m_start /\ startset p 5 (get h m.m_start).d_enc /\
    owned m.m_dstate h m.m_startLine /\ startset p 1 (get h m.m_startLine).d_enc
  predicate others (ds: map_seqB_int) (h h2: map int dstate_t) (al: int) = forall q [get h2 q]. q <= al -> not (owned ds h q) -> get h2 q = get h q
  (* where the scan is: the line started at s, i bytes are read, d is the state *)
  predicate scan (p: prog_t) (l: seqB) (bt et: bool) (ds: map_seqB_int) (h: map int dstate_t) (s i d: int) =
    0 <= s <= i <= lenB l /\ linestart l s /\ nonl l s i /\ none p l bt et s /\
    if d = a_dmatch then exists k. s <= k < i /\ thit p l s bt k (getB l k)
    else owned ds h d /\ srep p l s bt i (get h d).d_enc /\ forall k. s <= k < i -> not (thit p l s bt k (getB l k))
  let ghost at_end (p: prog_t) (l: seqB) (bt et: bool) (ds: map_seqB_int) (sl al: int) (h: map int dstate_t) (s i d: int) : unit
    requires { scan p l bt et ds h s i d } requires { i = lenB l \/ getB l i = 10 }
    requires { dinv p ds sl h al /\ allc p ds h /\ waiting h }
    ensures { isline l s i } ensures { lmatch p l bt et s i <-> (get h d).d_matchNL \/ (et /\ i = lenB l /\ (get h d).d_matchEOT) }
    ensures { none p l bt et i }
    ensures { not (lmatch p l bt et s i) -> none p l bt et (i+1) }
  = assert { isline l s i }; one_line l s i;
    if pure { d <> a_dmatch } then begin
      srep_live p l s bt i (pure { (get h d).d_enc }) 10; srep_live p l s bt i (pure { (get h d).d_enc }) (-1); assert { complete p h d }
    end
endwhy

func regexp.(*matcher).match
  requires ready m (get h_prog_t m.m_prog) h_dstate_t alloc_dstate_t
  at entry: let ghost p = pure { get h_prog_t m.m_prog } in let ghost ref s = 0 in let ghost ds0 = pure { m.m_dstate } in let ghost h0 = pure { h_dstate_t } in let ghost al0 = pure { alloc_dstate_t } in
    let ghost sl = pure { m.m_startLine } in ()
  at loop 1 before: srep_start p b 0 beginText (pure { (get h_dstate_t d).d_enc })
  loop 1
    invariant mbase m p /\ dinv p m.m_dstate sl h_dstate_t alloc_dstate_t /\ allc p m.m_dstate h_dstate_t /\ waiting h_dstate_t
    invariant owned m.m_dstate h_dstate_t m.m_start /\ owned m.m_dstate h_dstate_t sl
    invariant startset p 5 (get h_dstate_t m.m_start).d_enc /\ startset p 1 (get h_dstate_t sl).d_enc
    invariant al0 <= alloc_dstate_t /\ forall e [mem_map_seqB_int ds0 e|mem_map_seqB_int m.m_dstate e]. (mem_map_seqB_int ds0 e -> mem_map_seqB_int m.m_dstate e /\ get_map_seqB_int m.m_dstate e = get_map_seqB_int ds0 e) /\
      (mem_map_seqB_int m.m_dstate e -> not (mem_map_seqB_int ds0 e) -> get_map_seqB_int m.m_dstate e > al0)
    invariant others ds0 h0 h_dstate_t al0
    invariant scan p b beginText endText m.m_dstate h_dstate_t s ix1 d
  at loop 1 begin: let ghost dd = pure { d } in let ghost hh = pure { h_dstate_t } in let ghost dsd = pure { m.m_dstate } in let ghost e = pure { (get hh d).d_enc } in let ghost cc = pure { getB b ix1 } in
     if dd <> a_dmatch then begin srep_live p b s beginText ix1 e cc; assert { okst p dsd sl hh alloc_dstate_t dd e }; assert { okn p dsd sl hh (getP (get hh dd).d_next cc) e cc }; assert { complete p hh dd } end
  at call =d.next[c]#1 before: assert { dd <> a_dmatch }; assert { get h_dstate_t d = get hh d };
     assert { mem_map_seqB_int m.m_dstate e /\ get_map_seqB_int m.m_dstate e = d }; assert { d <= al0 -> okst p ds0 sl h0 al0 d e }; assert { d <= al0 -> owned ds0 h0 d };
     assert { okn p m.m_dstate sl h_dstate_t d1 e cc }; keep_state p m.m_dstate sl h_dstate_t alloc_dstate_t d (pure { { (get h_dstate_t d) with d_next = updP (get h_dstate_t d).d_next cc d1 } })
  at loop 1 end: let ghost e2 = pure { (get h_dstate_t d).d_enc } in
     if pure { cc = 10 } then begin assert { dd <> a_dmatch /\ not (hit p e 10) /\ d = sl };
       assert { isline b s ix1 }; one_line b s ix1; assert { not (lmatch p b beginText endText s ix1) }; assert { none p b beginText endText (ix1+1) };
       s <- ix1 + 1; srep_start p b s beginText e2; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
     else if pure { dd = a_dmatch } then begin assert { d = a_dmatch }; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
     else if pure { d = a_dmatch } then begin assert { thit p b s beginText ix1 cc }; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
     else begin assert { goodnext p e cc e2 /\ not (thit p b s beginText ix1 cc) }; srep_next p b s beginText ix1 e e2; assert { owned m.m_dstate h_dstate_t d }; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
  at return 1: at_end p b beginText endText m.m_dstate sl alloc_dstate_t h_dstate_t s ix1 d
  at return 2: at_end p b beginText endText m.m_dstate sl alloc_dstate_t h_dstate_t s (pure { lenB b }) d
  at return 3: at_end p b beginText endText m.m_dstate sl alloc_dstate_t h_dstate_t s (pure { lenB b }) d
  ensures [the end of the first matching line, or no match] first (get h_prog_t m.m_prog) b beginText endText end_
  ensures [the matcher stays ready] ready m (get h_prog_t m.m_prog) h_dstate_t alloc_dstate_t
  ensures [other matchers' states are untouched] others (old m).m_dstate (old h_dstate_t) h_dstate_t (old alloc_dstate_t)

func regexp.(*matcher).matchString
  requires ready m (get h_prog_t m.m_prog) h_dstate_t alloc_dstate_t
  at entry: let ghost p = pure { get h_prog_t m.m_prog } in let ghost ref s = 0 in let ghost ds0 = pure { m.m_dstate } in let ghost h0 = pure { h_dstate_t } in let ghost al0 = pure { alloc_dstate_t } in
    let ghost sl = pure { m.m_startLine } in ()
  at loop 1 before: srep_start p b 0 beginText (pure { (get h_dstate_t d).d_enc })
  loop 1
    invariant mbase m p /\ dinv p m.m_dstate sl h_dstate_t alloc_dstate_t /\ allc p m.m_dstate h_dstate_t /\ waiting h_dstate_t
    invariant owned m.m_dstate h_dstate_t m.m_start /\ owned m.m_dstate h_dstate_t sl
    invariant startset p 5 (get h_dstate_t m.m_start).d_enc /\ startset p 1 (get h_dstate_t sl).d_enc
    invariant al0 <= alloc_dstate_t /\ forall e [mem_map_seqB_int ds0 e|mem_map_seqB_int m.m_dstate e]. (mem_map_seqB_int ds0 e -> mem_map_seqB_int m.m_dstate e /\ get_map_seqB_int m.m_dstate e = get_map_seqB_int ds0 e) /\
      (mem_map_seqB_int m.m_dstate e -> not (mem_map_seqB_int ds0 e) -> get_map_seqB_int m.m_dstate e > al0)
    invariant others ds0 h0 h_dstate_t al0
    invariant scan p b beginText endText m.m_dstate h_dstate_t s ix1 d
  at loop 1 begin: let ghost dd = pure { d } in let ghost hh = pure { h_dstate_t } in let ghost dsd = pure { m.m_dstate } in let ghost e = pure { (get hh d).d_enc } in let ghost cc = pure { getB b ix1 } in
     if dd <> a_dmatch then begin srep_live p b s beginText ix1 e cc; assert { okst p dsd sl hh alloc_dstate_t dd e }; assert { okn p dsd sl hh (getP (get hh dd).d_next cc) e cc }; assert { complete p hh dd } end
  at call =d.next[c]#1 before: assert { dd <> a_dmatch }; assert { get h_dstate_t d = get hh d };
     assert { mem_map_seqB_int m.m_dstate e /\ get_map_seqB_int m.m_dstate e = d }; assert { d <= al0 -> okst p ds0 sl h0 al0 d e }; assert { d <= al0 -> owned ds0 h0 d };
     assert { okn p m.m_dstate sl h_dstate_t d1 e cc }; keep_state p m.m_dstate sl h_dstate_t alloc_dstate_t d (pure { { (get h_dstate_t d) with d_next = updP (get h_dstate_t d).d_next cc d1 } })
  at loop 1 end: let ghost e2 = pure { (get h_dstate_t d).d_enc } in
     if pure { cc = 10 } then begin assert { dd <> a_dmatch /\ not (hit p e 10) /\ d = sl };
       assert { isline b s ix1 }; one_line b s ix1; assert { not (lmatch p b beginText endText s ix1) }; assert { none p b beginText endText (ix1+1) };
       s <- ix1 + 1; srep_start p b s beginText e2; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
     else if pure { dd = a_dmatch } then begin assert { d = a_dmatch }; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
     else if pure { d = a_dmatch } then begin assert { thit p b s beginText ix1 cc }; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
     else begin assert { goodnext p e cc e2 /\ not (thit p b s beginText ix1 cc) }; srep_next p b s beginText ix1 e e2; assert { owned m.m_dstate h_dstate_t d }; assert { scan p b beginText endText m.m_dstate h_dstate_t s (ix1+1) d } end
  at return 1: at_end p b beginText endText m.m_dstate sl alloc_dstate_t h_dstate_t s ix1 d
  at return 2: at_end p b beginText endText m.m_dstate sl alloc_dstate_t h_dstate_t s (pure { lenB b }) d
  at return 3: at_end p b beginText endText m.m_dstate sl alloc_dstate_t h_dstate_t s (pure { lenB b }) d
  ensures [the end of the first matching line, or no match] first (get h_prog_t m.m_prog) b beginText endText end_
  ensures [the matcher stays ready] ready m (get h_prog_t m.m_prog) h_dstate_t alloc_dstate_t
  ensures [other matchers' states are untouched] others (old m).m_dstate (old h_dstate_t) h_dstate_t (old alloc_dstate_t)

func regexp.(*matcher).init
  requires prog <> 0 /\ wfp (get h_prog_t prog) /\ 0 < a_dmatch <= alloc_dstate_t /\ waiting h_dstate_t
  requires lenU32 m.m_z1.z_q.set_dense = 0 /\ lenU32 m.m_z2.z_q.set_dense = 0 /\ m.m_z1.z_partial = 0
  at entry: let ghost p = pure { get h_prog_t prog } in ()
  at call addq#1 before: let ghost q0 = pure { m.m_z1.z_q } in assert { forall x. not (mem q0 x) }
  at call addq#1 after: assert { keeps p 5 m.m_z1.z_q.set_dense }; reach_set p 5 m.m_z1.z_q.set_dense; assert { forall x. mem m.m_z1.z_q x <-> reach p 5 p.pg_Start x }
  at call cache#1 before: assert { forall e. not (mem_map_seqB_int m.m_dstate e) }
  at call cache#1 after: let ghost h1 = pure { h_dstate_t } in let ghost al1 = pure { alloc_dstate_t } in let ghost ds1 = pure { m.m_dstate } in let ghost st = pure { m.m_start } in
     assert { okst p ds1 m.m_startLine h1 al1 st (get h1 st).d_enc }; assert { startset p 5 (get h1 st).d_enc }
  at call addq#2 before: let ghost q1 = pure { m.m_z1.z_q } in assert { forall x. not (mem q1 x) }
  at call addq#2 after: assert { keeps p 1 m.m_z1.z_q.set_dense }; reach_set p 1 m.m_z1.z_q.set_dense; assert { forall x. mem m.m_z1.z_q x <-> reach p 1 p.pg_Start x }
  at call cache#2 after: assert { startset p 1 (get h_dstate_t m.m_startLine).d_enc }; 
     assert { forall e. mem_map_seqB_int m.m_dstate e -> idle h_dstate_t (get_map_seqB_int m.m_dstate e) /\ complete p h_dstate_t (get_map_seqB_int m.m_dstate e) };
     assert { forall e. mem_map_seqB_int m.m_dstate e -> okst p m.m_dstate m.m_startLine h_dstate_t alloc_dstate_t (get_map_seqB_int m.m_dstate e) e }
  ensures [it always succeeds] res0 = 0
  ensures [the matcher is ready for the program] m.m_prog = prog /\ ready m (get h_prog_t prog) h_dstate_t alloc_dstate_t

func regexp.init
  at call =dmatch.enc#1 before: assert { wf z.z_q }
  loop 1
    invariant let r = get h_dstate_t a_dmatch in r.d_matchNL /\ r.d_matchEOT /\ lenP r.d_next = 256 /\
       forall c [getP r.d_next c]. 0 <= c < 256 -> getP r.d_next c = (if c < ix1 /\ c <> 10 then a_dmatch else 0)
  ensures [the waiting state is set up] waiting h_dstate_t

# --- what users call ---
func regexp.(*Regexp).Match
  requires ready r.re_m (get h_prog_t r.re_m.m_prog) h_dstate_t alloc_dstate_t
  ensures [the end of the first matching line, or no match] first (get h_prog_t r.re_m.m_prog) b beginText endText end_
  ensures [the expression stays ready] ready r.re_m (get h_prog_t r.re_m.m_prog) h_dstate_t alloc_dstate_t

func regexp.(*Regexp).MatchString
  requires ready r.re_m (get h_prog_t r.re_m.m_prog) h_dstate_t alloc_dstate_t
  ensures [the end of the first matching line, or no match] first (get h_prog_t r.re_m.m_prog) s beginText endText end_
  ensures [the expression stays ready] ready r.re_m (get h_prog_t r.re_m.m_prog) h_dstate_t alloc_dstate_t
