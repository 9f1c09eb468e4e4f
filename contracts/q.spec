# C01: the trigram query of a regexp.
unit q
package index
use []string []byte []int32
seq []int32 R
nilable []string
prefix Query q_
prefix regexpInfo i_
heap Query
global allQuery const a_all
global noneQuery const a_none

why
  use map.Map
  val constant a_all : int
  val constant a_none : int
  predicate memS (s: seqS) (x: seqB)
  axiom memS_def: forall s x [memS s x]. memS s x <-> exists i. 0 <= i < lenS s /\ getS s i = x
  predicate memP (s: seqP) (x: int) = exists i. 0 <= i < lenP s /\ getP s i = x
  predicate sameS (s t: seqS) = forall x. memS s x <-> memS t x

  (* the query graph: a node, its parts, and what a set of trigrams satisfies *)
  type qh = int -> query_t
  predicate sub (h: qh) (a b: int)
  axiom sub_def: forall h a b [sub h a b]. sub h a b <-> memP (h a).q_Sub b
  let ghost sub_at (h: qh) (a i: int) : unit requires { 0 <= i < lenP (h a).q_Sub } ensures { sub h a (getP (h a).q_Sub i) } = assert { memP (h a).q_Sub (getP (h a).q_Sub i) }
  predicate qclosed (h: qh) (x: int -> bool) = forall u v [sub h u v]. x u -> sub h u v -> x v
  predicate reach (h: qh) (a b: int)
  val ghost reach_def (h: qh) (a b: int) : unit ensures { reach h a b <-> forall x: int -> bool. x a -> qclosed h x -> x b }
  let ghost reach_refl (h: qh) (a: int) : unit ensures { reach h a a } = reach_def h a a
  let ghost reach_trans (h: qh) (a b c: int) : unit requires { reach h a b /\ reach h b c } ensures { reach h a c }
  = reach_def h a b; reach_def h b c; reach_def h a c
  let ghost reach_sub (h: qh) (a b: int) : unit requires { sub h a b } ensures { reach h a b /\ forall c. reach h b c -> reach h a c }
  = reach_def h a b; assert { forall x: int -> bool. x a -> qclosed h x -> x b };
    let lemma tr (c: int) : unit requires { reach h b c } ensures { reach h a c } = reach_trans h a b c in ()
  let ghost reach_elim (h: qh) (a b: int) (x: int -> bool) : unit
    requires { reach h a b } requires { x a } requires { qclosed h x } ensures { x b } = reach_def h a b
  (* what is reached from a node is the node or is reached from a part *)
  let ghost reach_case (h: qh) (a b: int) : unit requires { reach h a b } ensures { b = a \/ exists c. sub h a c /\ reach h c b }
  = let ghost x = pure { fun y -> y = a \/ exists c. sub h a c /\ reach h c y } in
    let lemma st (u v: int) : unit requires { x u } requires { sub h u v } ensures { x v }
    = if pure { u = a } then reach_refl h v
      else begin
        let lemma one (c: int) : unit requires { sub h a c } requires { reach h c u } ensures { x v } = reach_sub h u v; reach_trans h c u v in ()
      end in
    reach_elim h a b x
  (* no cycles: a holds of every set that holds of a node whenever it holds of its parts *)
  predicate hered (h: qh) (x: int -> bool) = forall c. (forall b [sub h c b]. sub h c b -> x b) -> x c
  predicate acc (h: qh) (a: int)
  val ghost acc_def (h: qh) (a: int) : unit ensures { acc h a <-> forall x: int -> bool. hered h x -> x a }
  let ghost acc_intro (h: qh) (a: int) : unit requires { forall b. sub h a b -> acc h b } ensures { acc h a }
  = let lemma e (b: int) (x: int -> bool) : unit requires { acc h b } requires { hered h x } ensures { x b } = acc_def h b in
    acc_def h a
  let ghost acc_elim (h: qh) (a: int) (x: int -> bool) : unit requires { acc h a } requires { hered h x } ensures { x a } = acc_def h a
  let ghost acc_sub (h: qh) (a: int) : unit requires { acc h a } ensures { forall b. sub h a b -> acc h b }
  = let ghost x = pure { fun c -> acc h c /\ forall b. sub h c b -> acc h b } in
    let lemma st (c: int) : unit requires { forall b. sub h c b -> x b } ensures { x c } = acc_intro h c in
    acc_elim h a x
  let ghost acc_acyclic (h: qh) (a: int) : unit requires { acc h a } ensures { forall b. sub h a b -> not reach h b a }
  = let ghost x = pure { fun c -> forall b. sub h c b -> not reach h b c } in
    let lemma st (c: int) : unit requires { forall b. sub h c b -> x b } ensures { x c }
    = let lemma no (b: int) : unit requires { sub h c b } requires { reach h b c } ensures { false }
      = reach_case h b c;
        if pure { b = c } then begin reach_refl h c; assert { x b } end
        else begin
          let lemma n2 (d: int) : unit requires { sub h b d } requires { reach h d c } ensures { false }
          = reach_sub h c b; reach_trans h d c b; assert { x b } in ()
        end in () in
    acc_elim h a x

  predicate qok (h: qh) (s: seqB -> bool) (x: int -> bool) (c: int) =
    let n = h c in
    n.q_Op = 0
    \/ n.q_Op = 2 /\ (forall t. memS n.q_Trigram t -> s t) /\ (forall b [sub h c b]. sub h c b -> x b)
    \/ n.q_Op = 3 /\ ((exists t. memS n.q_Trigram t /\ s t) \/ (exists b. sub h c b /\ x b))
  predicate sat (h: qh) (s: seqB -> bool) (a: int)
  (* a satisfies a node when it satisfies its parts as the operator says; on nodes without cycles this defines sat *)
  val ghost sat_def (h: qh) (s: seqB -> bool) (a: int) : unit ensures { sat h s a <-> qok h s (fun b -> sat h s b) a }
  predicate same (h g: qh) (a: int)
  axiom same_def: forall h g a [same h g a]. same h g a <-> forall b [reach h a b]. reach h a b -> h b = g b
  predicate keep (h g: qh) (a: int) = acc g a /\ (forall s. sat h s a <-> sat g s a) /\ (forall b. reach g a b -> reach h a b) /\ (forall b. reach h a b -> reach g a b)
  let ghost sub_same (h g: qh) (a b: int) : unit requires { same h g a /\ sub h a b } ensures { sub g a b /\ same h g b }
  = reach_refl h a; reach_sub h a b
  let ghost frame (h g: qh) (a: int) : unit
    requires { acc h a } requires { same h g a } ensures { keep h g a }
  = let ghost x = pure { fun c -> same h g c -> keep h g c } in
    let lemma st (c: int) : unit requires { forall b. sub h c b -> x b } ensures { x c }
    = if pure { same h g c } then begin
        reach_refl h c; assert { h c = g c };
        let lemma e (b: int) : unit requires { sub h c b } ensures { keep h g b } = sub_same h g c b in
        assert { forall b. sub h c b <-> sub g c b };
        acc_intro g c;
        let lemma eqs (s: seqB -> bool) : unit ensures { sat h s c <-> sat g s c } = sat_def h s c; sat_def g s c in
        let lemma r1 (b: int) : unit requires { reach g c b } ensures { reach h c b }
        = reach_case g c b;
          if pure { b <> c } then begin
            let lemma one (d: int) : unit requires { sub g c d } requires { reach g d b } ensures { reach h c b } = assert { keep h g d }; reach_sub h c d in () end in
        let lemma r2 (b: int) : unit requires { reach h c b } ensures { reach g c b }
        = reach_case h c b; reach_refl g c;
          if pure { b <> c } then begin
            let lemma one (d: int) : unit requires { sub h c d } requires { reach h d b } ensures { reach g c b } = assert { keep h g d }; reach_sub g c d in () end in
        ()
      end in
    acc_elim h a x

  predicate nodeok (n: query_t) = 0 <= n.q_Op <= 3 /\ (n.q_Op < 2 -> lenS n.q_Trigram = 0 /\ lenP n.q_Sub = 0)
  (* a query: no cycles, allocated, well formed *)
  predicate valid (h: qh) (n: int) (q: int)
  axiom valid_def: forall h n q [valid h n q]. valid h n q <-> acc h q /\ forall b [reach h q b]. reach h q b -> 0 < b <= n /\ nodeok (h b)
  predicate consts (h: qh) (n: int) = 0 < a_all <= n /\ 0 < a_none <= n /\ a_all <> a_none /\
    (h a_all).q_Op = 0 /\ nodeok (h a_all) /\ (h a_none).q_Op = 1 /\ nodeok (h a_none)
  (* the nodes a query may change: all but the two shared constants *)
  predicate own (h: qh) (q b: int) = reach h q b /\ b <> a_all /\ b <> a_none
  predicate disj (h: qh) (q r: int)
  axiom disj_def: forall h q r [disj h q r]. disj h q r <-> forall b. reach h q b -> reach h r b -> b = a_all \/ b = a_none
  (* from h, with n nodes, to g, only nodes of q and r and new nodes changed *)
  predicate kept (h g: qh) (n q r: int)
  axiom kept_def: forall h g n q r [kept h g n q r]. kept h g n q r <-> forall b. 0 < b <= n -> not own h q b -> not own h r b -> g b = h b
  predicate grown (h g: qh) (n q r out: int)
  axiom grown_def: forall h g n q r out [grown h g n q r out]. grown h g n q r out <->
    forall b. reach g out b -> own h q b \/ own h r b \/ b > n \/ b = a_all \/ b = a_none
  let ghost valid_at (h: qh) (n q: int) : unit requires { valid h n q } ensures { acc h q /\ 0 < q <= n /\ nodeok (h q) } = reach_refl h q
  let ghost valid_sub (h: qh) (n q: int) : unit requires { valid h n q }
    ensures { forall b. sub h q b -> valid h n b /\ (forall c. reach h b c -> reach h q c) /\ not reach h b q }
  = acc_sub h q; acc_acyclic h q;
    let lemma one (b: int) : unit requires { sub h q b } ensures { valid h n b /\ forall c. reach h b c -> reach h q c } = reach_sub h q b in ()
  let ghost same_upd (h g: qh) (q a: int) : unit
    requires { forall x. x <> q -> g x = h x } requires { not reach h a q } ensures { same h g a } = ()
  let ghost valid_frame (h g: qh) (n m q: int) : unit
    requires { valid h n q } requires { same h g q } requires { n <= m } ensures { valid g m q /\ keep h g q }
  = frame h g q
  (* out is given new parts, each a query that does not contain out *)
  let ghost build (h g: qh) (n m q: int) : unit
    requires { 0 < q <= m /\ n <= m /\ nodeok (g q) }
    requires { forall b. sub g q b -> valid h n b /\ same h g b }
    ensures { valid g m q }
    ensures { forall b. sub g q b -> keep h g b }
    ensures { forall c. reach g q c -> c = q \/ exists b. sub g q b /\ reach h b c }
  = let lemma one (b: int) : unit requires { sub g q b } ensures { keep h g b /\ valid g m b } = valid_frame h g n m b in
    acc_intro g q;
    let lemma r1 (c: int) : unit requires { reach g q c } ensures { c = q \/ exists b. sub g q b /\ reach h b c }
    = reach_case g q c in
    let lemma r2 (c: int) : unit requires { reach g q c } ensures { 0 < c <= m /\ nodeok (g c) }
    = reach_case g q c in ()
  (* out, a changed q or r or a new node, now has parts from among q, r and theirs *)
  let ghost post_node (h g: qh) (n m q r out: int) : unit
    requires { valid h n q /\ valid h n r /\ disj h q r /\ consts h n /\ n <= m }
    requires { (h q).q_Op >= 2 /\ (h r).q_Op >= 2 }
    requires { forall x. x <> out -> g x = h x }
    requires { out = q \/ out = r \/ n < out <= m }
    requires { (g out).q_Op >= 2 /\ nodeok (g out) }
    requires { forall b. sub g out b -> sub h q b \/ sub h r b \/ (b = q /\ out <> q) \/ (b = r /\ out <> r) }
    ensures { valid g m out }
    ensures { forall b. sub g out b -> keep h g b }
    ensures { kept h g n q r }
    ensures { grown h g n q r out }
    ensures { consts g m }
  = valid_at h n q; valid_at h n r; reach_refl h q; reach_refl h r; valid_sub h n q; valid_sub h n r;
    assert { q <> a_all /\ q <> a_none /\ r <> a_all /\ r <> a_none };
    assert { not reach h q r /\ not reach h r q };
    let lemma one (b: int) : unit requires { sub g out b } ensures { valid h n b /\ same h g b /\ (forall c. reach h b c -> reach h q c \/ reach h r c) }
    = assert { valid h n b }; assert { not reach h b out }; same_upd h g out b in
    build h g n m out
  (* q can be read as an op node *)
  predicate like (h: qh) (op q: int) = (h q).q_Op >= 2 /\ ((h q).q_Op = op \/ lenS (h q).q_Trigram = 1 /\ lenP (h q).q_Sub = 0)
  let ghost like_sat (h: qh) (op q: int) (s: seqB -> bool) : unit
    requires { like h op q } requires { nodeok (h q) } requires { op = 2 \/ op = 3 }
    ensures { op = 2 -> (sat h s q <-> (forall t. memS (h q).q_Trigram t -> s t) /\ forall b. sub h q b -> sat h s b) }
    ensures { op = 3 -> (sat h s q <-> (exists t. memS (h q).q_Trigram t /\ s t) \/ exists b. sub h q b /\ sat h s b) }
  = sat_def h s q;
    if pure { (h q).q_Op <> op } then begin
      assert { forall b. not sub h q b };
      assert { memS (h q).q_Trigram (getS (h q).q_Trigram 0) };
      assert { forall t. memS (h q).q_Trigram t -> t = getS (h q).q_Trigram 0 }
    end
  predicate part (h g: qh) (op q out: int) = (like h op q /\ (forall t. memS (h q).q_Trigram t -> memS (g out).q_Trigram t) /\ (forall b. sub h q b -> sub g out b)) \/ sub g out q
  let ghost join_and (h g: qh) (q r out: int) (s: seqB -> bool) : unit
    requires { sat h s q /\ sat h s r } requires { (g out).q_Op = 2 } requires { nodeok (h q) /\ nodeok (h r) }
    requires { forall t. memS (g out).q_Trigram t -> (like h 2 q /\ memS (h q).q_Trigram t) \/ (like h 2 r /\ memS (h r).q_Trigram t) }
    requires { forall b. sub g out b -> (like h 2 q /\ sub h q b) \/ (like h 2 r /\ sub h r b) \/ b = q \/ b = r }
    requires { forall b. sub g out b -> keep h g b }
    ensures { sat g s out }
  = if pure { like h 2 q } then like_sat h 2 q s; if pure { like h 2 r } then like_sat h 2 r s;
    sat_def g s out;
    assert { forall b. sub g out b -> sat h s b }; assert { forall b. sub g out b -> sat g s b }
  let ghost join_or (h g: qh) (q out: int) (s: seqB -> bool) : unit
    requires { sat h s q } requires { (g out).q_Op = 3 } requires { nodeok (h q) }
    requires { part h g 3 q out }
    requires { forall b. sub g out b -> keep h g b }
    ensures { sat g s out }
  = sat_def g s out;
    if pure { sub g out q } then assert { sat g s q }
    else begin like_sat h 3 q s; assert { forall b. sub h q b -> sat h s b -> sub g out b /\ sat g s b } end
  (* the first i trigrams of t0 were moved: the w kept ones to the front of t, the others to c *)
  predicate side (t0 t c: seqS) (i w: int)
  axiom side_def: forall t0 t c i w [side t0 t c i w]. side t0 t c i w <-> lenS t = lenS t0 /\ 0 <= w <= i <= lenS t0 /\
    (forall k [getS t k]. i <= k < lenS t0 -> getS t k = getS t0 k) /\
    (forall k [getS t0 k]. 0 <= k < i -> memS c (getS t0 k) \/ exists m. 0 <= m < w /\ getS t m = getS t0 k) /\
    (forall m [getS t m]. 0 <= m < w -> memS t0 (getS t m))
  let ghost side_keep (t0 t c: seqS) (i w: int) : unit requires { side t0 t c i w /\ i < lenS t0 }
    ensures { side t0 (updS t w (getS t0 i)) c (i + 1) (w + 1) /\ getS t i = getS t0 i }
  = let ghost u = pure { updS t w (getS t0 i) } in
    assert { getS u w = getS t0 i };
    let lemma one (k: int) : unit requires { 0 <= k < i + 1 } ensures { memS c (getS t0 k) \/ exists m. 0 <= m < w + 1 /\ getS u m = getS t0 k }
    = if k < i then begin
        let lemma two (m: int) : unit requires { 0 <= m < w } requires { getS t m = getS t0 k } ensures { exists m. 0 <= m < w + 1 /\ getS u m = getS t0 k } = assert { getS u m = getS t0 k } in () end in
    let lemma fr (m: int) : unit requires { 0 <= m < w + 1 } ensures { memS t0 (getS u m) } = if m < w then assert { getS u m = getS t m } else assert { getS u m = getS t0 i } in
    ()
  let rec ghost str_tri (s t: seqB) (n: int) : unit
    requires { 0 <= n <= lenB s /\ n <= lenB t /\ forall i. 0 <= i < n -> getB s i = getB t i }
    ensures { str_less s t \/ str_less t s \/ s = t }
    variant { lenB s - n }
  = if n = lenB s then begin if n = lenB t then assert { eqB s t } end
    else if n < lenB t then begin if getB s n = getB t n then str_tri s t (n + 1) end
  let ghost side_move (t0 t c: seqS) (i w: int) (x: seqB) : unit requires { side t0 t c i w /\ i < lenS t0 }
    ensures { getS t i = getS t0 i } ensures { x = getS t0 i -> side t0 t (snocS c x) (i + 1) w } ensures { side t0 t (snocS c x) i w }
  = assert { forall j. 0 <= j < lenS c -> getS (snocS c x) j = getS c j };
    assert { forall j. 0 <= j < lenS c -> memS (snocS c x) (getS c j) }; assert { forall y. memS c y -> memS (snocS c x) y };
    assert { memS (snocS c x) x by getS (snocS c x) (lenS c) = x }
  let ghost side_end (t0 t c: seqS) (i w: int) : unit requires { side t0 t c i w /\ i = lenS t0 }
    ensures { forall x. memS t0 x -> memS c x \/ memS (subS t 0 w) x } ensures { forall x. memS (subS t 0 w) x -> memS t0 x }
  = assert { forall m. 0 <= m < w -> getS (subS t 0 w) m = getS t m /\ memS (subS t 0 w) (getS t m) }
  predicate triout (h g: qh) (q r: int) = (forall x. x <> q -> x <> r -> g x = h x) /\
    (g q).q_Sub = (h q).q_Sub /\ (g q).q_Op = (h q).q_Op /\ (g r).q_Sub = (h r).q_Sub /\ (g r).q_Op = (h r).q_Op
  let ghost split_and (h g: qh) (q: int) (c: seqS) (s: seqB -> bool) : unit
    requires { sat h s q } requires { (h q).q_Op = 2 /\ (g q).q_Op = 2 /\ (g q).q_Sub = (h q).q_Sub }
    requires { forall t. memS (g q).q_Trigram t -> memS (h q).q_Trigram t } requires { forall t. memS c t -> memS (h q).q_Trigram t }
    requires { forall b. sub h q b -> keep h g b }
    ensures { sat g s q /\ forall t. memS c t -> s t }
  = sat_def h s q; sat_def g s q; assert { forall b. sub g q b -> sub h q b }
  let ghost split_or (h g: qh) (q: int) (c: seqS) (s: seqB -> bool) : unit
    requires { sat h s q } requires { (h q).q_Op = 3 /\ (g q).q_Op = 3 /\ (g q).q_Sub = (h q).q_Sub }
    requires { forall t. memS (h q).q_Trigram t -> memS c t \/ memS (g q).q_Trigram t }
    requires { forall b. sub h q b -> keep h g b }
    ensures { sat g s q \/ exists t. memS c t /\ s t }
  = sat_def h s q; sat_def g s q; assert { forall b. sub h q b -> sub g q b }
  (* only trigrams of q and r changed *)
  let ghost retri (h g: qh) (n q r: int) : unit
    requires { valid h n q /\ valid h n r /\ disj h q r /\ consts h n }
    requires { (h q).q_Op >= 2 /\ (h r).q_Op >= 2 }
    requires { forall x. x <> q -> x <> r -> g x = h x }
    requires { (g q).q_Sub = (h q).q_Sub /\ (g q).q_Op = (h q).q_Op /\ (g r).q_Sub = (h r).q_Sub /\ (g r).q_Op = (h r).q_Op }
    ensures { valid g n q /\ valid g n r /\ disj g q r /\ consts g n }
    ensures { forall b. sub h q b -> keep h g b }
    ensures { forall b. sub h r b -> keep h g b }
    ensures { forall b. reach g q b <-> reach h q b }
    ensures { forall b. reach g r b <-> reach h r b }
  = valid_at h n q; valid_at h n r; reach_refl h q; reach_refl h r; valid_sub h n q; valid_sub h n r;
    assert { q <> a_all /\ q <> a_none /\ r <> a_all /\ r <> a_none };
    assert { not reach h q r /\ not reach h r q };
    assert { forall a b. sub g a b <-> sub h a b };
    assert { forall x. qclosed h x <-> qclosed g x };
    let lemma rr (a b: int) : unit ensures { reach g a b <-> reach h a b } = reach_def g a b; reach_def h a b in
    let lemma o (b: int) : unit requires { sub h q b \/ sub h r b } ensures { keep h g b }
    = assert { not reach h b q /\ not reach h b r }; assert { same h g b }; assert { acc h b }; frame h g b in
    acc_intro g q; acc_intro g r

  (* every three-byte substring of w is in s *)
  predicate tris (w: seqB) (s: seqB -> bool)
  axiom tris_def: forall w s [tris w s]. tris w s <-> forall i. 0 <= i -> i + 3 <= lenB w -> s (subB w i (i + 3))
  (* x is found in w at k *)
  predicate infix (x w: seqB) (k: int) = 0 <= k /\ k + lenB x <= lenB w /\ forall i. 0 <= i < lenB x -> getB x i = getB w (k + i)
  let ghost tris_sub (x w: seqB) (k: int) (s: seqB -> bool) : unit requires { tris w s } requires { infix x w k } ensures { tris x s }
  = let lemma one (i: int) : unit requires { 0 <= i /\ i + 3 <= lenB x } ensures { s (subB x i (i + 3)) }
    = let ghost a = pure { subB x i (i + 3) } in let ghost b = pure { subB w (k + i) (k + i + 3) } in
      assert { lenB a = 3 /\ lenB b = 3 };
      assert { forall j. 0 <= j < 3 -> getB a j = getB x (i + j) }; assert { forall j. 0 <= j < 3 -> getB b j = getB w (k + i + j) };
      assert { forall j. 0 <= j < 3 -> getB a j = getB b j }; assert { eqB a b }; assert { a = b } in ()
  let ghost tris_in (w: seqB) (t: seqS) (s: seqB -> bool) : unit requires { tris w s }
    requires { forall x. memS t x -> exists k. 0 <= k /\ k + 3 <= lenB w /\ x = subB w k (k + 3) } ensures { forall x. memS t x -> s x }
  = let lemma one (x: seqB) : unit requires { memS t x } ensures { s x }
    = let lemma two (k: int) : unit requires { 0 <= k /\ k + 3 <= lenB w /\ x = subB w k (k + 3) } ensures { s x } = () in () in ()
  (* x is a prefix of w, or a suffix when d *)
  predicate isx (d: bool) (x w: seqB)
  axiom isx_def: forall d x w [isx d x w]. isx d x w <-> infix x w (if d then lenB w - lenB x else 0)
  predicate has (d: bool) (t: seqS) (w: seqB)
  axiom has_def: forall d t w [has d t w]. has d t w <-> exists x. memS t x /\ isx d x w
  let ghost isx_trans (d: bool) (x y w: seqB) : unit requires { isx d x y /\ isx d y w } ensures { isx d x w } = ()
  let ghost isx_refl (d: bool) (x: seqB) : unit ensures { isx d x x } = ()
  let ghost has_tris (d: bool) (t: seqS) (w: seqB) (s: seqB -> bool) : unit requires { has d t w } requires { tris w s } ensures { exists i. 0 <= i < lenS t /\ tris (getS t i) s }
  = let lemma one (x: seqB) : unit requires { memS t x } requires { isx d x w } ensures { exists i. 0 <= i < lenS t /\ tris (getS t i) s } = tris_sub x w (if d then lenB w - lenB x else 0) s in ()
  let ghost has_mono (d: bool) (t u: seqS) : unit requires { forall x. memS t x -> memS u x } ensures { forall w. has d t w -> has d u w } = ()
  let ghost has_grow (d: bool) (t u: seqS) (y: seqB) : unit
    requires { lenS u = lenS t + 1 /\ forall i. 0 <= i < lenS t -> getS u i = getS t i } requires { isx d (getS u (lenS t)) y }
    ensures { has d u y } ensures { forall v. has d t v -> has d u v }
  = assert { forall i. 0 <= i < lenS u -> memS u (getS u i) }; assert { forall x. memS t x -> memS u x }; has_mono d t u; assert { memS u (getS u (lenS t)) }
  (* each of the first i strings of r has a shorter one among the first w of t *)
  predicate cov (d: bool) (r t: seqS) (i w: int)
  axiom cov_def: forall d r t i w [cov d r t i w]. cov d r t i w <-> lenS t = lenS r /\ 0 <= w <= i <= lenS r /\
    (forall j [getS t j]. i <= j < lenS r -> getS t j = getS r j) /\ (forall j [getS r j]. 0 <= j < i -> exists k. 0 <= k < w /\ isx d (getS t k) (getS r j))
  let ghost cov_put (d: bool) (r t: seqS) (i w: int) (x: seqB) : unit requires { cov d r t i w /\ i < lenS r } requires { isx d x (getS r i) } ensures { cov d r (updS t w x) (i + 1) (w + 1) }
  = let ghost u = pure { updS t w x } in assert { getS u w = x };
    let lemma one (j: int) : unit requires { 0 <= j < i } ensures { exists k. 0 <= k < w + 1 /\ isx d (getS u k) (getS r j) }
    = let lemma two (k: int) : unit requires { 0 <= k < w } requires { isx d (getS t k) (getS r j) } ensures { exists k. 0 <= k < w + 1 /\ isx d (getS u k) (getS r j) } = assert { getS u k = getS t k } in () in
    assert { isx d (getS u w) (getS r i) }
  let ghost cov_skip (d: bool) (r t: seqS) (i w: int) : unit requires { cov d r t i w /\ i < lenS r /\ w > 0 } requires { isx d (getS t (w - 1)) (getS r i) } ensures { cov d r t (i + 1) w } = ()
  let ghost cov_end (d: bool) (r t: seqS) (w: int) : unit requires { cov d r t (lenS r) w } ensures { forall v. has d r v -> has d (subS t 0 w) v }
  = let lemma one (v x: seqB) : unit requires { memS r x } requires { isx d x v } ensures { has d (subS t 0 w) v }
    = let lemma two (k: int) : unit requires { 0 <= k < w } requires { isx d (getS t k) x } ensures { has d (subS t 0 w) v }
      = assert { getS (subS t 0 w) k = getS t k }; assert { memS (subS t 0 w) (getS t k) }; isx_trans d (getS t k) x v in () in ()
  (* what is recorded about a string v: its trigrams satisfy the query m, and it is in e, or begins and ends as p and s say *)
  predicate fits (h: qh) (m: int) (e p s: seqS) (v: seqB)
  axiom fits_def: forall h m e p s v [fits h m e p s v]. fits h m e p s v <-> (forall x. tris v x -> sat h x m) /\ (if nnS e then memS e v else has false p v /\ has true s v)
  (* from h, q was turned into r *)
  predicate step (h: qh) (n q: int) (g: qh) (m r: int)
  axiom step_def: forall h n q g m r [step h n q g m r]. step h n q g m r <-> valid g m r /\ consts g m /\ n <= m /\ kept h g n q q /\ grown h g n q q r
  let ghost step_refl (h: qh) (n q: int) : unit requires { valid h n q /\ consts h n } ensures { step h n q h n q } = ()
  let ghost step_trans (h: qh) (n q: int) (g: qh) (m r: int) (f: qh) (k t: int) : unit requires { step h n q g m r /\ step g m r f k t } ensures { step h n q f k t }
  = let lemma a (b: int) : unit requires { 0 < b <= n } requires { not own h q b } ensures { f b = h b } = assert { not own g r b } in
    let lemma b (b: int) : unit requires { reach f t b } ensures { own h q b \/ b > n \/ b = a_all \/ b = a_none } = () in ()
  let ghost tris_cat (v w: seqB) (s: seqB -> bool) : unit requires { tris (catB v w) s } ensures { tris v s /\ tris w s } = tris_sub v (catB v w) 0 s; tris_sub w (catB v w) (lenB v) s
  let ghost isx_cat (v w x: seqB) : unit ensures { isx false x v -> isx false x (catB v w) } ensures { isx true x w -> isx true x (catB v w) }
    ensures { isx false x w -> isx false (catB v x) (catB v w) } ensures { isx true x v -> isx true (catB x w) (catB v w) } = ()
  let ghost has_cat (v w: seqB) (t: seqS) : unit ensures { has false t v -> has false t (catB v w) } ensures { has true t w -> has true t (catB v w) }
  = let lemma one (x: seqB) : unit ensures { isx false x v -> isx false x (catB v w) } ensures { isx true x w -> isx true x (catB v w) } = isx_cat v w x in ()
  (* c has every concatenation of a string of a and one of b *)
  predicate crossed (a b c: seqS)
  axiom crossed_def: forall a b c [crossed a b c]. crossed a b c <-> forall x y. memS a x -> memS b y -> memS c (catB x y)
  let ghost has_cross (v w: seqB) (a b c: seqS) : unit requires { crossed a b c }
    ensures { memS a v -> has false b w -> has false c (catB v w) } ensures { has true a v -> memS b w -> has true c (catB v w) } ensures { memS a v -> memS b w -> memS c (catB v w) }
  = let lemma one (x: seqB) : unit requires { memS a v } requires { memS b x } requires { isx false x w } ensures { has false c (catB v w) } = isx_cat v w x in
    let lemma two (x: seqB) : unit requires { memS b w } requires { memS a x } requires { isx true x v } ensures { has true c (catB v w) } = isx_cat v w x in ()
  let ghost mid_cross (v w: seqB) (a b c: seqS) (s: seqB -> bool) : unit requires { crossed a b c } requires { has true a v } requires { has false b w } requires { tris (catB v w) s }
    ensures { exists i. 0 <= i < lenS c /\ tris (getS c i) s }
  = let lemma one (x y: seqB) : unit requires { memS a x /\ memS b y } requires { isx true x v } requires { isx false y w } ensures { exists i. 0 <= i < lenS c /\ tris (getS c i) s }
    = tris_sub (catB x y) (catB v w) (lenB v - lenB x) s; assert { memS c (catB x y) } in ()
  (* from h, a query r was made of q1 and q2 *)
  predicate step2 (h: qh) (n q1 q2: int) (g: qh) (m r: int)
  axiom step2_def: forall h n q1 q2 g m r [step2 h n q1 q2 g m r]. step2 h n q1 q2 g m r <-> valid g m r /\ consts g m /\ n <= m /\ kept h g n q1 q2 /\ grown h g n q1 q2 r
  let ghost step2_step (h: qh) (n q1 q2: int) (g: qh) (m r: int) (f: qh) (k t: int) : unit requires { step2 h n q1 q2 g m r /\ step g m r f k t } ensures { step2 h n q1 q2 f k t }
  = let lemma a (b: int) : unit requires { 0 < b <= n } requires { not own h q1 b /\ not own h q2 b } ensures { f b = h b } = assert { not own g r b } in
    let lemma b (b: int) : unit requires { reach f t b } ensures { own h q1 b \/ own h q2 b \/ b > n \/ b = a_all \/ b = a_none } = () in ()
  predicate fitsi (h: qh) (i: regexpInfo_t) (v: seqB) = fits h i.i_match i.i_exact i.i_prefix i.i_suffix v
  (* a query apart from q is left alone *)
  let ghost step_other (h: qh) (n q: int) (g: qh) (m r u: int) : unit requires { step h n q g m r /\ valid h n u /\ disj h q u /\ consts h n }
    ensures { valid g m u /\ keep h g u /\ disj g r u /\ disj g u r }
  = let lemma one (b: int) : unit requires { reach h u b } ensures { h b = g b }
    = if pure { b = a_all \/ b = a_none } then () else if pure { reach h q b } then assert { false } else () in
    assert { same h g u }; valid_frame h g n m u;
    assert { forall b. reach g r b -> reach g u b -> b = a_all \/ b = a_none }
  let ghost step_step2 (h: qh) (n q u: int) (g: qh) (m r: int) (f: qh) (k t: int) : unit
    requires { step h n q g m r /\ valid h n u /\ disj h q u /\ consts h n } requires { step2 g m r u f k t \/ step2 g m u r f k t } ensures { step2 h n q u f k t /\ step2 h n u q f k t }
  = step_other h n q g m r u;
    let lemma a (b: int) : unit requires { 0 < b <= n } requires { not own h q b /\ not own h u b } ensures { f b = h b } = assert { not own g r b }; assert { not own g u b } in
    let lemma b (b: int) : unit requires { reach f t b } ensures { own h q b \/ own h u b \/ b > n \/ b = a_all \/ b = a_none } = () in ()
  let ghost has_mem (d: bool) (t: seqS) (x: seqB) : unit requires { memS t x } ensures { has d t x } = isx_refl d x
endwhy

extern sort.Sort inout=0
  val x_sort_Sort (ref s: seqS) : unit writes { s }
    ensures { sameS s (old s) } ensures { lenS s = lenS (old s) } ensures { nnS s <-> nnS (old s) }

extern strings.HasPrefix
  val x_strings_HasPrefix (s p: seqB) : bool ensures { result <-> lenB p <= lenB s /\ forall i. 0 <= i < lenB p -> getB s i = getB p i }
extern strings.HasSuffix
  val x_strings_HasSuffix (s p: seqB) : bool ensures { result <-> lenB p <= lenB s /\ forall i. 0 <= i < lenB p -> getB s (lenB s - lenB p + i) = getB p i }

func index.(stringSet).minLen
  loop 1
    invariant forall j. 0 <= j < ix1 -> m <= lenB (getS s j)
    invariant exists j. 0 <= j < lenS s /\ m = lenB (getS s j)
  ensures [no longer than any member] forall x. memS s x -> res0 <= lenB x
  ensures [zero when empty] lenS s = 0 -> res0 = 0
  ensures 0 <= res0 <= 0x3fffffffffffffff

func index.(*stringSet).clean
  loop 1
    invariant 0 <= w <= ix1 /\ lenS s = lenS rg1 /\ (nnS s <-> nnS rg1)
    invariant forall j. ix1 <= j < lenS s -> getS s j = getS rg1 j
    invariant forall j. 0 <= j < ix1 -> exists k. 0 <= k < w /\ getS s k = getS rg1 j
    invariant forall k. 0 <= k < w -> memS rg1 (getS s k)
  ensures [the same members] sameS s (old s)
  ensures nnS s <-> nnS (old s)
  ensures [no more of them] lenS s <= lenS (old s)

func index.(stringSet).isSubsetOf
  loop 1
    invariant 0 <= j <= lenS t
    invariant forall k. 0 <= k < ix1 -> memS t (getS s k)
  loop 2
    invariant 0 <= j <= lenS t
  ensures [only if every member is a member] res0 -> forall x. memS s x -> memS t x

func index.(stringSet).union
  ensures [exactly the members of both] forall x. memS res0 x <-> memS (old s) x \/ memS t x
  ensures nnS (old s) -> nnS res0

func index.(stringSet).cross
  loop 1
    invariant nnS p
    invariant forall i j. 0 <= i < ix1 -> 0 <= j < lenS t -> memS p (catB (getS s i) (getS t j))
  loop 2
    invariant nnS p
    invariant forall i j. 0 <= i < ix1 -> 0 <= j < lenS t -> memS p (catB (getS s i) (getS t j))
    invariant forall j. 0 <= j < ix2 -> memS p (catB (getS s ix1) (getS t j))
  ensures nnS res0
  ensures [every concatenation] forall x y. memS s x -> memS t y -> memS res0 (catB x y)
  ensures crossed s t res0

func index.trigramsImply noterm
  requires valid h_query_t alloc_query_t q
  at entry: valid_at h_query_t alloc_query_t q; valid_sub h_query_t alloc_query_t q
  loop 1
    invariant true
  loop 2
    invariant true
  loop 3
    invariant forall j s. 0 <= j < ix3 -> (forall x. memS t x -> s x) -> sat h_query_t s (getP (get h_query_t q).q_Sub j)
  at call trigramsImply#1 before: sub_at h_query_t q ix1
  at call trigramsImply#2 before: sub_at h_query_t q ix3
  at return 1: let lemma d (s: seqB -> bool) : unit requires { forall x. memS t x -> s x } ensures { sat h_query_t s q } = sat_def h_query_t s q; assert { sat h_query_t s (getP (get h_query_t q).q_Sub ix1) } in
  at return 2: let lemma d (s: seqB -> bool) : unit requires { forall x. memS t x -> s x } ensures { sat h_query_t s q }
    = sat_def h_query_t s q; assert { memS (subS t i (i + 1)) (getS t i) by getS (subS t i (i + 1)) 0 = getS t i }; assert { s (getS t i) } in
  at return 6: let lemma d (s: seqB -> bool) : unit requires { forall x. memS t x -> s x } ensures { sat h_query_t s q } = sat_def h_query_t s q;
      let lemma e (b: int) : unit requires { sub h_query_t q b } ensures { sat h_query_t s b } = assert { memP (get h_query_t q).q_Sub b } in () in
  ensures [only if the trigrams satisfy the query] res0 -> forall s. (forall x. memS t x -> s x) -> sat h_query_t s q

func index.(*Query).implies
  requires valid h_query_t alloc_query_t q /\ valid h_query_t alloc_query_t r
  at entry: valid_at h_query_t alloc_query_t q; valid_at h_query_t alloc_query_t r
  at return *: let lemma d (s: seqB -> bool) (a: int) : unit ensures { sat h_query_t s a <-> qok h_query_t s (fun b -> sat h_query_t s b) a } = sat_def h_query_t s a in
  ensures [nothing implies everything] (get h_query_t q).q_Op = 1 \/ (get h_query_t r).q_Op = 0 -> res0
  ensures [only if whatever satisfies the one satisfies the other] res0 -> forall s. sat h_query_t s q -> sat h_query_t s r

func index.(*Query).andOr noterm
  requires valid h_query_t alloc_query_t q /\ valid h_query_t alloc_query_t r /\ disj h_query_t q r /\ consts h_query_t alloc_query_t
  requires op = 2 \/ op = 3
  at entry: let ghost h0 = pure { h_query_t } in let ghost n0 = pure { alloc_query_t } in valid_at h0 n0 q; valid_at h0 n0 r; valid_sub h0 n0 q; valid_sub h0 n0 r
  at call implies#1 before: 
    assert { q = q_in \/ sub h0 q_in q /\ lenP (h0 q_in).q_Sub = 1 /\ lenS (h0 q_in).q_Trigram = 0 };
    assert { r = r_in \/ sub h0 r_in r /\ lenP (h0 r_in).q_Sub = 1 /\ lenS (h0 r_in).q_Trigram = 0 };
    assert { valid h0 n0 q /\ forall b. reach h0 q b -> reach h0 q_in b }; assert { valid h0 n0 r /\ forall b. reach h0 r b -> reach h0 r_in b };
    assert { disj h0 q r };
    let lemma sq (s: seqB -> bool) : unit ensures { sat h0 s q_in -> sat h0 s q } = sat_def h0 s q_in in
    let lemma sr (s: seqB -> bool) : unit ensures { sat h0 s r_in -> sat h0 s r } = sat_def h0 s r_in in
    assert { forall s. sat h0 s q_in -> sat h0 s q }; assert { forall s. sat h0 s r_in -> sat h0 s r }; valid_at h0 n0 q; valid_at h0 n0 r; reach_refl h0 q; reach_refl h0 r
  at return 5: let ghost h1 = pure { h_query_t } in  assert { forall b. sub h1 q b -> sub h0 q b \/ sub h0 r b }; let ghost sq = pure { (h0 q).q_Sub } in let ghost sr = pure { (h0 r).q_Sub } in
    assert { forall i. 0 <= i < lenP sq -> getP (catP sq sr) i = getP sq i /\ memP (catP sq sr) (getP sq i) };
    assert { forall i. 0 <= i < lenP sr -> getP (catP sq sr) (lenP sq + i) = getP sr i /\ memP (catP sq sr) (getP sr i) };
    assert { forall b. sub h0 q b -> sub h1 q b }; assert { forall b. sub h0 r b -> sub h1 q b }; assert { like h0 op q /\ like h0 op r };
    assert { forall t. memS (h1 q).q_Trigram t <-> memS (h0 q).q_Trigram t \/ memS (h0 r).q_Trigram t }; post_node h0 h1 n0 n0 q r q; assert { op = 2 -> forall t. memS (h1 q).q_Trigram t -> (like h0 2 q /\ memS (h0 q).q_Trigram t) \/ (like h0 2 r /\ memS (h0 r).q_Trigram t) }; assert { op = 2 -> forall b. sub h1 q b -> (like h0 2 q /\ sub h0 q b) \/ (like h0 2 r /\ sub h0 r b) \/ b = q \/ b = r }; assert { op = 3 -> part h0 h1 3 q q /\ part h0 h1 3 r q }; let lemma sat_a (s: seqB -> bool) : unit requires { op = 2 } requires { sat h0 s q /\ sat h0 s r } ensures { sat h1 s q } = join_and h0 h1 q r q s in let lemma sat_o (s: seqB -> bool) : unit requires { op = 3 } requires { sat h0 s q \/ sat h0 s r } ensures { sat h1 s q } = if pure { sat h0 s q } then join_or h0 h1 q q s else join_or h0 h1 r q s in
  at return 6: let ghost h1 = pure { h_query_t } in  assert { forall b. sub h1 r b -> sub h0 r b }; post_node h0 h1 n0 n0 q r r; assert { op = 2 -> forall t. memS (h1 r).q_Trigram t -> (like h0 2 q /\ memS (h0 q).q_Trigram t) \/ (like h0 2 r /\ memS (h0 r).q_Trigram t) }; assert { op = 2 -> forall b. sub h1 r b -> (like h0 2 q /\ sub h0 q b) \/ (like h0 2 r /\ sub h0 r b) \/ b = q \/ b = r }; assert { op = 3 -> part h0 h1 3 q r /\ part h0 h1 3 r r }; let lemma sat_a (s: seqB -> bool) : unit requires { op = 2 } requires { sat h0 s q /\ sat h0 s r } ensures { sat h1 s r } = join_and h0 h1 q r r s in let lemma sat_o (s: seqB -> bool) : unit requires { op = 3 } requires { sat h0 s q \/ sat h0 s r } ensures { sat h1 s r } = if pure { sat h0 s q } then join_or h0 h1 q r s else join_or h0 h1 r r s in
  at return 7: let ghost h1 = pure { h_query_t } in  assert { forall b. not sub h1 q b }; post_node h0 h1 n0 n0 q r q; assert { op = 2 -> forall t. memS (h1 q).q_Trigram t -> (like h0 2 q /\ memS (h0 q).q_Trigram t) \/ (like h0 2 r /\ memS (h0 r).q_Trigram t) }; assert { op = 2 -> forall b. sub h1 q b -> (like h0 2 q /\ sub h0 q b) \/ (like h0 2 r /\ sub h0 r b) \/ b = q \/ b = r }; assert { op = 3 -> part h0 h1 3 q q /\ part h0 h1 3 r q }; let lemma sat_a (s: seqB -> bool) : unit requires { op = 2 } requires { sat h0 s q /\ sat h0 s r } ensures { sat h1 s q } = join_and h0 h1 q r q s in let lemma sat_o (s: seqB -> bool) : unit requires { op = 3 } requires { sat h0 s q \/ sat h0 s r } ensures { sat h1 s q } = if pure { sat h0 s q } then join_or h0 h1 q q s else join_or h0 h1 r q s in
  at return 8: assert { q <> r }; let ghost h1 = pure { h_query_t } in  assert { forall b. sub h1 q b <-> sub h0 q b \/ b = r }; post_node h0 h1 n0 n0 q r q; assert { op = 2 -> forall t. memS (h1 q).q_Trigram t -> (like h0 2 q /\ memS (h0 q).q_Trigram t) \/ (like h0 2 r /\ memS (h0 r).q_Trigram t) }; assert { op = 2 -> forall b. sub h1 q b -> (like h0 2 q /\ sub h0 q b) \/ (like h0 2 r /\ sub h0 r b) \/ b = q \/ b = r }; assert { op = 3 -> part h0 h1 3 q q /\ part h0 h1 3 r q }; let lemma sat_a (s: seqB -> bool) : unit requires { op = 2 } requires { sat h0 s q /\ sat h0 s r } ensures { sat h1 s q } = join_and h0 h1 q r q s in let lemma sat_o (s: seqB -> bool) : unit requires { op = 3 } requires { sat h0 s q \/ sat h0 s r } ensures { sat h1 s q } = if pure { sat h0 s q } then join_or h0 h1 q q s else join_or h0 h1 r q s in
  at return 9: assert { q <> r }; let ghost h1 = pure { h_query_t } in  assert { forall b. sub h1 r b <-> sub h0 r b \/ b = q }; post_node h0 h1 n0 n0 q r r; assert { op = 2 -> forall t. memS (h1 r).q_Trigram t -> (like h0 2 q /\ memS (h0 q).q_Trigram t) \/ (like h0 2 r /\ memS (h0 r).q_Trigram t) }; assert { op = 2 -> forall b. sub h1 r b -> (like h0 2 q /\ sub h0 q b) \/ (like h0 2 r /\ sub h0 r b) \/ b = q \/ b = r }; assert { op = 3 -> part h0 h1 3 q r /\ part h0 h1 3 r r }; let lemma sat_a (s: seqB -> bool) : unit requires { op = 2 } requires { sat h0 s q /\ sat h0 s r } ensures { sat h1 s r } = join_and h0 h1 q r r s in let lemma sat_o (s: seqB -> bool) : unit requires { op = 3 } requires { sat h0 s q \/ sat h0 s r } ensures { sat h1 s r } = if pure { sat h0 s q } then join_or h0 h1 q r s else join_or h0 h1 r r s in
  at loop 1 before: assert { q <> r }; assert { (h0 q).q_Op = 5 - op /\ (h0 r).q_Op = 5 - op }
  loop 1
    invariant triout h0 h_query_t q r
    invariant side (h0 q).q_Trigram (get h_query_t q).q_Trigram common i wi
    invariant side (h0 r).q_Trigram (get h_query_t r).q_Trigram common j wj
    invariant forall x. memS common x -> memS (h0 q).q_Trigram x /\ memS (h0 r).q_Trigram x
    variant lenS (h0 q).q_Trigram - i + lenS (h0 r).q_Trigram - j
  loop 2
    invariant triout h0 h_query_t q r
    invariant side (h0 q).q_Trigram (get h_query_t q).q_Trigram common i wi
    invariant side (h0 r).q_Trigram (get h_query_t r).q_Trigram common j wj
    variant lenS (h0 q).q_Trigram - i
  loop 3
    invariant triout h0 h_query_t q r
    invariant i = lenS (h0 q).q_Trigram
    invariant side (h0 q).q_Trigram (get h_query_t q).q_Trigram common i wi
    invariant side (h0 r).q_Trigram (get h_query_t r).q_Trigram common j wj
    variant lenS (h0 r).q_Trigram - j
  at call =q.Trigram[wi]#1 before: side_keep (pure { (h0 q).q_Trigram }) (pure { (get h_query_t q).q_Trigram }) common i wi
  at call =r.Trigram[wj]#1 before: side_keep (pure { (h0 r).q_Trigram }) (pure { (get h_query_t r).q_Trigram }) common j wj
  at call =common#2 before: str_tri qt rt 0; side_move (pure { (h0 q).q_Trigram }) (pure { (get h_query_t q).q_Trigram }) common i wi qt; side_move (pure { (h0 r).q_Trigram }) (pure { (get h_query_t r).q_Trigram }) common j wj qt;
    assert { forall x. memS (snocS common qt) x -> x = qt \/ memS common x }
  at call =q.Trigram[wi]#2 before: side_keep (pure { (h0 q).q_Trigram }) (pure { (get h_query_t q).q_Trigram }) common i wi
  at call =r.Trigram[wj]#2 before: side_keep (pure { (h0 r).q_Trigram }) (pure { (get h_query_t r).q_Trigram }) common j wj
  at call =q.Trigram#3 before: side_end (pure { (h0 q).q_Trigram }) (pure { (get h_query_t q).q_Trigram }) common i wi; side_end (pure { (h0 r).q_Trigram }) (pure { (get h_query_t r).q_Trigram }) common j wj
  at call =r.Trigram#2 after: let ghost h1 = pure { h_query_t } in
    assert { forall t. memS (h0 q).q_Trigram t -> memS common t \/ memS (h1 q).q_Trigram t };
    assert { forall t. memS (h0 r).q_Trigram t -> memS common t \/ memS (h1 r).q_Trigram t };
    assert { forall t. memS (h1 q).q_Trigram t -> memS (h0 q).q_Trigram t }; assert { forall t. memS (h1 r).q_Trigram t -> memS (h0 r).q_Trigram t };
    retri h0 h1 n0 q r;
    let lemma ls (x: int) (s: seqB -> bool) : unit requires { x = q \/ x = r } requires { sat h0 s x }
      ensures { op = 3 -> sat h1 s x /\ forall t. memS common t -> s t } ensures { op = 2 -> sat h1 s x \/ exists t. memS common t /\ s t }
    = if pure { op = 3 } then split_and h0 h1 x common s else split_or h0 h1 x common s in ()
  at call andOr#1 after: let ghost h2 = pure { h_query_t } in let ghost n2 = pure { alloc_query_t } in ()
  at call andOr#2 before: let ghost h3 = pure { h_query_t } in let ghost n3 = pure { alloc_query_t } in
    valid_at h2 n2 s; assert { same h2 h3 s }; valid_frame h2 h3 n2 n3 s;
    assert { forall b. not sub h3 t b }; build h2 h3 n2 n3 t; reach_refl h3 t;
    assert { disj h3 t s }; assert { consts h3 n3 };
    let lemma tt (x: seqB -> bool) : unit ensures { op = 3 -> (forall t. memS common t -> x t) -> sat h3 x t } ensures { op = 2 -> forall u. memS common u -> x u -> sat h3 x t } = sat_def h3 x t in ()
  at return 10: let ghost h4 = pure { h_query_t } in assert { kept h0 h2 n0 q r }; assert { grown h0 h2 n0 q r s };
    assert { forall b. own h3 s b -> own h0 q b \/ own h0 r b \/ b > n0 };
    assert { kept h0 h4 n0 q r }; assert { grown h0 h4 n0 q r ret }
  at return 11: let ghost h5 = pure { h_query_t } in let ghost n5 = pure { alloc_query_t } in
    assert { forall b. sub h5 ret b <-> b = q \/ b = r }; post_node h1 h5 n0 n5 q r ret;
    assert { kept h0 h5 n0 q r }; assert { grown h0 h5 n0 q r ret };
    let lemma sat_a (s: seqB -> bool) : unit requires { op = 2 } requires { sat h0 s q /\ sat h0 s r } ensures { sat h5 s ret } = join_and h1 h5 q r ret s in
    let lemma sat_o (s: seqB -> bool) : unit requires { op = 3 } requires { sat h0 s q \/ sat h0 s r } ensures { sat h5 s ret } = if pure { sat h0 s q } then join_or h1 h5 q ret s else join_or h1 h5 r ret s in
  ensures valid h_query_t alloc_query_t out /\ consts h_query_t alloc_query_t /\ alloc_query_t >= old alloc_query_t
  ensures [only the two queries are changed] kept (old h_query_t) h_query_t (old alloc_query_t) q r
  ensures [the result consists of the two and of new nodes] grown (old h_query_t) h_query_t (old alloc_query_t) q r out
  ensures [what satisfies both satisfies their conjunction] op = 2 -> forall s. sat (old h_query_t) s q -> sat (old h_query_t) s r -> sat h_query_t s out
  ensures [what satisfies either satisfies their disjunction] op = 3 -> forall s. sat (old h_query_t) s q \/ sat (old h_query_t) s r -> sat h_query_t s out

func index.(*Query).andTrigrams
  requires valid h_query_t alloc_query_t q /\ consts h_query_t alloc_query_t
  at entry: let ghost h0 = pure { h_query_t } in let ghost n0 = pure { alloc_query_t } in valid_at h0 n0 q; reach_refl h0 q
  at loop 1 before: let lemma nn (b: int) : unit requires { reach h0 a_none b } ensures { b = a_none } = reach_case h0 a_none b in
    reach_refl h0 a_none; acc_intro h0 a_none; assert { valid h0 n0 a_none }
  loop 1
    invariant valid h_query_t alloc_query_t or /\ consts h_query_t alloc_query_t /\ alloc_query_t >= n0
    invariant forall b. 0 < b <= n0 -> h_query_t b = h0 b
    invariant forall b. reach h_query_t or b -> b > n0 \/ b = a_none \/ b = a_all
    invariant forall j s. 0 <= j < ix1 -> tris (getS t j) s -> sat h_query_t s or
  at loop 1 begin: let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost or1 = pure { or } in valid_at h1 n1 or; reach_refl h1 or
  loop 2
    invariant 0 <= i <= lenB tt
    invariant forall x. memS trig x -> exists k. 0 <= k /\ k + 3 <= lenB tt /\ x = subB tt k (k + 3)
    variant lenB tt - i
  at loop 2 begin: let ghost tr1 = pure { trig } in
  at loop 2 end: assert { forall k. 0 <= k < lenS tr1 -> getS trig k = getS tr1 k /\ memS tr1 (getS tr1 k) };
    let lemma nw (x: seqB) (t2: seqS) : unit requires { memS t2 x } requires { lenS t2 = lenS tr1 + 1 /\ forall k. 0 <= k < lenS tr1 -> getS t2 k = getS tr1 k } ensures { memS tr1 x \/ x = getS t2 (lenS tr1) }
      = assert { forall k. 0 <= k < lenS tr1 -> memS tr1 (getS tr1 k) } in ()
  at call clean#1 before: let ghost trig0 = pure { trig } in assert { forall x. memS trig0 x -> exists k. 0 <= k /\ k + 3 <= lenB tt /\ x = subB tt k (k + 3) }
  at call clean#1 after: assert { sameS trig trig0 }; assert { forall x. memS trig x -> memS trig0 x }; assert { forall x. memS trig x -> exists k. 0 <= k /\ k + 3 <= lenB tt /\ x = subB tt k (k + 3) }
  at call andOr#1 in: let ghost h2 = pure { h_query_t } in let ghost n2 = pure { alloc_query_t } in
    assert { same h1 h2 or }; valid_frame h1 h2 n1 n2 or;
    assert { r = n2 /\ n2 = n1 + 1 }; assert { (h2 r).q_Op = 2 /\ lenP (h2 r).q_Sub = 0 /\ (h2 r).q_Trigram = trig }; assert { forall b. not sub h2 r b };
    build h2 h2 n2 n2 r; reach_refl h2 r; assert { forall b. reach h2 r b -> b = r };
    assert { disj h2 or r }; assert { consts h2 n2 }; assert { forall x. memS trig x -> exists k. 0 <= k /\ k + 3 <= lenB tt /\ x = subB tt k (k + 3) };
    let lemma tt1 (s: seqB -> bool) : unit requires { tris tt s } ensures { sat h2 s r } = sat_def h2 s r; tris_in tt trig s in ()
  at call andOr#1 after: let ghost h3 = pure { h_query_t } in assert { forall s. tris tt s -> sat h3 s or }; assert { forall s. sat h1 s or1 -> sat h3 s or };
    assert { forall b. 0 < b <= n0 -> h3 b = h1 b }
  at call andOr#2 before: let ghost h3 = pure { h_query_t } in let ghost n3 = pure { alloc_query_t } in
    assert { same h0 h3 q }; valid_frame h0 h3 n0 n3 q; assert { disj h3 q or }
  at return 2: let ghost h4 = pure { h_query_t } in assert { forall b. 0 < b <= n0 -> not own h0 q_in b -> h4 b = h0 b }; assert { kept h0 h4 n0 q_in q_in }
  ensures valid h_query_t alloc_query_t res0 /\ consts h_query_t alloc_query_t /\ alloc_query_t >= old alloc_query_t
  ensures [only the query is changed] kept (old h_query_t) h_query_t (old alloc_query_t) q q
  ensures [the result consists of it and of new nodes] grown (old h_query_t) h_query_t (old alloc_query_t) q q res0
  ensures [what satisfies the query and has the trigrams of one of the strings satisfies the result] forall s i. sat (old h_query_t) s q -> 0 <= i < lenS t -> tris (getS t i) s -> sat h_query_t s res0

func index.(stringSet).have inline
func index.(stringSet).size inline
func index.(*stringSet).add inline
func index.(*regexpInfo).addExact inline
func index.(*regexpInfo).simplifySet inline
func index.(*regexpInfo).simplify
  requires consts h_query_t alloc_query_t /\ valid h_query_t alloc_query_t info.i_match
  at entry: let ghost h0 = pure { h_query_t } in let ghost n0 = pure { alloc_query_t } in let ghost m0 = pure { info.i_match } in let ghost e0 = pure { info.i_exact } in let ghost p0 = pure { info.i_prefix } in let ghost s0 = pure { info.i_suffix } in
    step_refl h0 n0 m0
  at call clean#1 after: assert { forall v. fits h0 m0 e0 p0 s0 v -> fits h_query_t info.i_match info.i_exact info.i_prefix info.i_suffix v }
  at loop 1 before: assert { step h0 n0 m0 h_query_t alloc_query_t info.i_match }; assert { nnS info.i_exact };
    assert { forall v. fits h0 m0 e0 p0 s0 v -> memS info.i_exact v }; assert { forall v x. fits h0 m0 e0 p0 s0 v -> tris v x -> sat h_query_t x info.i_match }
  loop 1
    invariant forall j. 0 <= j < ix1 -> has false info.i_prefix (getS rg1 j) /\ has true info.i_suffix (getS rg1 j)
  at loop 1 begin: let ghost p1 = pure { info.i_prefix } in let ghost s1 = pure { info.i_suffix } in let ghost x1 = pure { getS rg1 ix1 } in
  at loop 1 end: has_grow false p1 (pure { info.i_prefix }) x1; has_grow true s1 (pure { info.i_suffix }) x1
  at call =info.exact#1 before: assert { forall v. fits h0 m0 e0 p0 s0 v -> has false info.i_prefix v /\ has true info.i_suffix v }
  at call =info.exact#1 after: assert { forall v. fits h0 m0 e0 p0 s0 v -> fits h_query_t info.i_match info.i_exact info.i_prefix info.i_suffix v }
  at call clean#2 before: let ghost tb2 = pure { t } in assert { step h0 n0 m0 h_query_t alloc_query_t info.i_match }
  at call clean#2 after: assert { sameS t tb2 }; assert { forall x. memS tb2 x -> memS t x }; let ghost t1 = pure { t } in has_mono false (pure { info.i_prefix }) t1; let ghost hb2 = pure { h_query_t } in let ghost nb2 = pure { alloc_query_t } in let ghost mb2 = pure { info.i_match } in
    let lemma ht (v: seqB) (x: seqB -> bool) : unit requires { has false t1 v } requires { tris v x } ensures { exists i. 0 <= i < lenS t1 /\ tris (getS t1 i) x } = has_tris false t1 v x in
  at call andTrigrams#2 after: assert { step hb2 nb2 mb2 h_query_t alloc_query_t info.i_match }; step_trans h0 n0 m0 hb2 nb2 mb2 (pure { h_query_t }) (pure { alloc_query_t }) (pure { info.i_match });
    assert { forall v. fits h0 m0 e0 p0 s0 v -> has false t v }; assert { forall v x. fits h0 m0 e0 p0 s0 v -> tris v x -> sat h_query_t x info.i_match }
  loop 2
    invariant 0 <= n <= 3
    invariant n = 0 -> lenS t <= 1
    invariant forall v. has false t_L2 v -> has false t v
    variant n
  loop 3
    invariant cov false rg3 t ix3 w
    invariant n = 1 -> w <= 1 /\ forall k. 0 <= k < w -> lenB (getS t k) = 0
  at loop 3 begin: let ghost t2 = pure { t } in let ghost w2 = w in let ghost i2 = ix3 in let lemma sk () : unit requires { 0 < w2 } requires { isx false (getS t2 (w2 - 1)) (getS rg3 i2) } ensures { cov false rg3 t2 (i2 + 1) w2 } = cov_skip false rg3 t2 i2 w2 in
  at call =t[w]#1 before: cov_put false rg3 t ix3 w str
  at loop 3 after: cov_end false rg3 t w; assert { forall v. has false rg3 v -> has false (subS t 0 w) v }
  loop 4
    invariant cov false rg4 t ix4 w
  at loop 4 begin: let ghost t2 = pure { t } in let ghost w2 = w in let ghost i2 = ix4 in let lemma sk () : unit requires { 0 < w2 } requires { isx false (getS t2 (w2 - 1)) (getS rg4 i2) } ensures { cov false rg4 t2 (i2 + 1) w2 } = cov_skip false rg4 t2 i2 w2 in
    isx_refl false (pure { getS rg4 ix4 })
  at call =t[w]#2 before: cov_put false rg4 t ix4 w str
  at loop 4 after: cov_end false rg4 t w; assert { forall v. has false rg4 v -> has false (subS t 0 w) v }
  at call clean#4 before: let ghost tb5 = pure { t } in assert { step h0 n0 m0 h_query_t alloc_query_t info.i_match }
  at call clean#4 after: assert { sameS t tb5 }; assert { forall x. memS tb5 x -> memS t x }; let ghost t1 = pure { t } in has_mono true (pure { info.i_suffix }) t1; let ghost hb5 = pure { h_query_t } in let ghost nb5 = pure { alloc_query_t } in let ghost mb5 = pure { info.i_match } in
    let lemma ht (v: seqB) (x: seqB -> bool) : unit requires { has true t1 v } requires { tris v x } ensures { exists i. 0 <= i < lenS t1 /\ tris (getS t1 i) x } = has_tris true t1 v x in
  at call andTrigrams#3 after: assert { step hb5 nb5 mb5 h_query_t alloc_query_t info.i_match }; step_trans h0 n0 m0 hb5 nb5 mb5 (pure { h_query_t }) (pure { alloc_query_t }) (pure { info.i_match });
    assert { forall v. fits h0 m0 e0 p0 s0 v -> has true t v }; assert { forall v x. fits h0 m0 e0 p0 s0 v -> tris v x -> sat h_query_t x info.i_match }
  loop 5
    invariant 0 <= n <= 3
    invariant n = 0 -> lenS t <= 1
    invariant forall v. has true t_L5 v -> has true t v
    variant n
  loop 6
    invariant cov true rg6 t ix6 w
    invariant n = 1 -> w <= 1 /\ forall k. 0 <= k < w -> lenB (getS t k) = 0
  at loop 6 begin: let ghost t2 = pure { t } in let ghost w2 = w in let ghost i2 = ix6 in let lemma sk () : unit requires { 0 < w2 } requires { isx true (getS t2 (w2 - 1)) (getS rg6 i2) } ensures { cov true rg6 t2 (i2 + 1) w2 } = cov_skip true rg6 t2 i2 w2 in
  at call =t[w]#3 before: cov_put true rg6 t ix6 w str
  at loop 6 after: cov_end true rg6 t w; assert { forall v. has true rg6 v -> has true (subS t 0 w) v }
  loop 7
    invariant cov true rg7 t ix7 w
  at loop 7 begin: let ghost t2 = pure { t } in let ghost w2 = w in let ghost i2 = ix7 in let lemma sk () : unit requires { 0 < w2 } requires { isx true (getS t2 (w2 - 1)) (getS rg7 i2) } ensures { cov true rg7 t2 (i2 + 1) w2 } = cov_skip true rg7 t2 i2 w2 in
    isx_refl true (pure { getS rg7 ix7 })
  at call =t[w]#4 before: cov_put true rg7 t ix7 w str
  at loop 7 after: cov_end true rg7 t w; assert { forall v. has true rg7 v -> has true (subS t 0 w) v }
  ensures [only the query is changed, and the result consists of it and of new nodes] step (old h_query_t) (old alloc_query_t) (old info.i_match) h_query_t alloc_query_t info.i_match
  ensures [whatever fitted the old facts fits the new] forall v. fits (old h_query_t) (old info.i_match) (old info.i_exact) (old info.i_prefix) (old info.i_suffix) v -> fits h_query_t info.i_match info.i_exact info.i_prefix info.i_suffix v

func index.concat
  requires consts h_query_t alloc_query_t /\ valid h_query_t alloc_query_t x.i_match /\ valid h_query_t alloc_query_t y.i_match /\ disj h_query_t x.i_match y.i_match
  at entry: let ghost h0 = pure { h_query_t } in let ghost n0 = pure { alloc_query_t } in
    let lemma tc (v w: seqB) (s: seqB -> bool) : unit requires { tris (catB v w) s } ensures { tris v s /\ tris w s } = tris_cat v w s in
    let lemma cr (v w: seqB) (a b c: seqS) : unit requires { crossed a b c }
      ensures { memS a v -> has false b w -> has false c (catB v w) } ensures { has true a v -> memS b w -> has true c (catB v w) } ensures { memS a v -> memS b w -> memS c (catB v w) } = has_cross v w a b c in
    let lemma hc (v w: seqB) (t: seqS) : unit ensures { has false t v -> has false t (catB v w) } ensures { has true t w -> has true t (catB v w) } = has_cat v w t in
    let lemma mo (d: bool) (t u: seqS) : unit requires { forall x. memS t x -> memS u x } ensures { forall w. has d t w -> has d u w } = has_mono d t u in
  at call andOr#1 after: let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost m1 = pure { xy.i_match } in assert { step2 h0 n0 x.i_match y.i_match h1 n1 m1 };
    assert { forall v w s. fitsi h0 x v -> fitsi h0 y w -> tris (catB v w) s -> sat h1 s m1 }
  at call union#1 after: assert { forall v. has false x.i_prefix v -> has false xy.i_prefix v }
  at call union#2 after: assert { forall v. has true y.i_suffix v -> has true xy.i_suffix v }
  at call andTrigrams#1 before:
    assert { forall v w. fitsi h0 x v -> fitsi h0 y w -> if nnS xy.i_exact then memS xy.i_exact (catB v w) else has false xy.i_prefix (catB v w) /\ has true xy.i_suffix (catB v w) }
  at call andTrigrams#1 in: let lemma md (v w: seqB) (a b c: seqS) (s: seqB -> bool) : unit requires { crossed a b c } requires { has true a v } requires { has false b w } requires { tris (catB v w) s }
      ensures { exists i. 0 <= i < lenS c /\ tris (getS c i) s } = mid_cross v w a b c s in
  at call andTrigrams#1 after: step2_step h0 n0 (pure { x.i_match }) (pure { y.i_match }) h1 n1 m1 (pure { h_query_t }) (pure { alloc_query_t }) (pure { xy.i_match });
    assert { forall v w s. fitsi h0 x v -> fitsi h0 y w -> tris (catB v w) s -> sat h_query_t s xy.i_match }
  at call simplify#1 before: let ghost h2 = pure { h_query_t } in let ghost n2 = pure { alloc_query_t } in let ghost m2 = pure { xy.i_match } in assert { step2 h0 n0 x.i_match y.i_match h2 n2 m2 };
    assert { forall v w s. fitsi h0 x v -> fitsi h0 y w -> tris (catB v w) s -> sat h_query_t s xy.i_match };
    assert { forall v w. fitsi h0 x v -> fitsi h0 y w -> if nnS xy.i_exact then memS xy.i_exact (catB v w) else has false xy.i_prefix (catB v w) /\ has true xy.i_suffix (catB v w) };
    assert { forall v w. fitsi h0 x v -> fitsi h0 y w -> fitsi h_query_t xy (catB v w) }
  at call simplify#1 after: step2_step h0 n0 (pure { x.i_match }) (pure { y.i_match }) h2 n2 m2 (pure { h_query_t }) (pure { alloc_query_t }) (pure { xy.i_match })
  ensures [only the two queries are changed, and the result consists of them and of new nodes] step2 (old h_query_t) (old alloc_query_t) x.i_match y.i_match h_query_t alloc_query_t out.i_match
  ensures [a string that fits the one followed by one that fits the other fits the result] forall v w. fitsi (old h_query_t) x v -> fitsi (old h_query_t) y w -> fitsi h_query_t out (catB v w)

func index.(stringSet).copy inline
func index.alternate
  requires consts h_query_t alloc_query_t /\ valid h_query_t alloc_query_t x.i_match /\ valid h_query_t alloc_query_t y.i_match /\ disj h_query_t x.i_match y.i_match
  at entry: let ghost h0 = pure { h_query_t } in let ghost n0 = pure { alloc_query_t } in let ghost x0 = pure { x } in let ghost y0 = pure { y } in
    let lemma mo (d: bool) (t u: seqS) : unit requires { forall x. memS t x -> memS u x } ensures { forall w. has d t w -> has d u w } = has_mono d t u in
    let lemma me (d: bool) (t: seqS) (x: seqB) : unit requires { memS t x } ensures { has d t x } = has_mem d t x in
    assert { disj h0 y.i_match x.i_match };
    assert { forall k. 0 <= k < lenS y.i_exact -> getS (catS emptyS y.i_exact) k = getS y.i_exact k }; assert { forall v. memS y.i_exact v -> memS (catS emptyS y.i_exact) v }
  at call union#2 after: assert { forall v. memS x.i_exact v \/ has false y.i_prefix v -> has false xy.i_prefix v }
  at call union#3 after: assert { forall v. memS x.i_exact v \/ has true y.i_suffix v -> has true xy.i_suffix v }
  at call union#4 after: assert { forall v. has false x0.i_prefix v \/ memS y0.i_exact v -> has false xy.i_prefix v }
  at call union#5 after: assert { forall v. memS x0.i_suffix v \/ memS y0.i_exact v -> memS xy.i_suffix v }; has_mono true (pure { x0.i_suffix }) (pure { xy.i_suffix }); assert { forall v. has true x0.i_suffix v \/ memS y0.i_exact v -> has true xy.i_suffix v }
  at call union#6 after: assert { forall v. has false x0.i_prefix v \/ has false y0.i_prefix v -> has false xy.i_prefix v }
  at call union#7 after: assert { forall v. memS x0.i_suffix v \/ memS y0.i_suffix v -> memS xy.i_suffix v }; has_mono true (pure { x0.i_suffix }) (pure { xy.i_suffix }); assert { forall v. has true x0.i_suffix v \/ has true y0.i_suffix v -> has true xy.i_suffix v }
  at call andTrigrams#1 after: step_other h0 n0 (pure { x0.i_match }) (pure { h_query_t }) (pure { alloc_query_t }) (pure { x.i_match }) (pure { y.i_match });
    assert { step h0 n0 x0.i_match h_query_t alloc_query_t x.i_match /\ valid h_query_t alloc_query_t y.i_match /\ disj h_query_t x.i_match y.i_match };
    assert { forall v s. fitsi h0 x0 v -> tris v s -> sat h_query_t s x.i_match }; assert { forall v s. fitsi h0 y0 v -> tris v s -> sat h_query_t s y.i_match }
  at call andTrigrams#2 after: step_other h0 n0 (pure { y0.i_match }) (pure { h_query_t }) (pure { alloc_query_t }) (pure { y.i_match }) (pure { x.i_match });
    assert { step h0 n0 y0.i_match h_query_t alloc_query_t y.i_match /\ valid h_query_t alloc_query_t x.i_match /\ disj h_query_t x.i_match y.i_match };
    assert { forall v s. fitsi h0 x0 v -> tris v s -> sat h_query_t s x.i_match }; assert { forall v s. fitsi h0 y0 v -> tris v s -> sat h_query_t s y.i_match }
  at call andOr#1 before: let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost m1 = pure { x.i_match } in let ghost u1 = pure { y.i_match } in
    assert { forall v. fitsi h0 x0 v \/ fitsi h0 y0 v -> if nnS xy.i_exact then memS xy.i_exact v else has false xy.i_prefix v /\ has true xy.i_suffix v };
    assert { forall v s. fitsi h0 x0 v -> tris v s -> sat h1 s x.i_match }; assert { forall v s. fitsi h0 y0 v -> tris v s -> sat h1 s y.i_match };
    assert { (h1 = h0 /\ n1 = n0 /\ m1 = x0.i_match /\ u1 = y0.i_match) \/ (step h0 n0 x0.i_match h1 n1 m1 /\ u1 = y0.i_match) \/ (step h0 n0 y0.i_match h1 n1 u1 /\ m1 = x0.i_match) };
    assert { valid h1 n1 m1 /\ valid h1 n1 u1 /\ disj h1 m1 u1 /\ consts h1 n1 }
  at call andOr#1 after: let ghost h2 = pure { h_query_t } in let ghost n2 = pure { alloc_query_t } in let ghost m2 = pure { xy.i_match } in assert { step2 h1 n1 m1 u1 h2 n2 m2 };
    if pure { step h0 n0 x0.i_match h1 n1 m1 /\ u1 = y0.i_match } then step_step2 h0 n0 (pure { x0.i_match }) u1 h1 n1 m1 h2 n2 m2
    else if pure { step h0 n0 y0.i_match h1 n1 u1 /\ m1 = x0.i_match } then step_step2 h0 n0 (pure { y0.i_match }) m1 h1 n1 u1 h2 n2 m2;
    assert { step2 h0 n0 x0.i_match y0.i_match h2 n2 m2 };
    assert { forall v. fitsi h0 x0 v \/ fitsi h0 y0 v -> fitsi h2 xy v }
  at call simplify#1 after: step2_step h0 n0 (pure { x0.i_match }) (pure { y0.i_match }) h2 n2 m2 (pure { h_query_t }) (pure { alloc_query_t }) (pure { xy.i_match })
  ensures [only the two queries are changed, and the result consists of them and of new nodes] step2 (old h_query_t) (old alloc_query_t) (old x.i_match) (old y.i_match) h_query_t alloc_query_t out.i_match
  ensures [a string that fits either fits the result] forall v. fitsi (old h_query_t) (old x) v \/ fitsi (old h_query_t) (old y) v -> fitsi h_query_t out v
