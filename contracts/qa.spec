# C01: the facts analyze records about a regexp hold of every string it matches.
include q.spec
use []rune
heap syntax.Regexp
prefix syntax.Regexp x_
drop syntax.Regexp.Rune0
drop syntax.Regexp.Sub0

why
  type rh = int -> regexp_t
  val function string_of_rune (r: int) : seqB
  val function string_of_runes (r: seqR) : seqB
  function sfold (r: int) : int
  (* what repeated case folding makes of a rune *)
  predicate orb (a r: int)
  val ghost orb_def (a r: int) : unit ensures { orb a r <-> forall x: int -> bool. x a -> (forall y. x y -> x (sfold y)) -> x r }
  let ghost orb_in (a r: int) : unit ensures { orb a a } ensures { orb a r -> orb a (sfold r) }
  = orb_def a a; orb_def a r; orb_def a (sfold r)
  let ghost orb_out (a r: int) (x: int -> bool) : unit requires { orb a r } requires { x a } requires { forall y. x y -> x (sfold y) } ensures { x r } = orb_def a r
  (* the position of a rune in the cycle that folding a makes *)
  function ord (a r: int) : int
  axiom ord_0: forall a. ord a a = 0
  axiom ord_next: forall a r [orb a r, sfold r]. orb a r -> 0 <= ord a r < 1000 /\ (sfold r = a \/ ord a (sfold r) = ord a r + 1)
  (* the first k of ws, one after another *)
  function catn (ws: seqS) (k: int) : seqB
  val ghost catn_0 (ws: seqS) : unit ensures { catn ws 0 = emptyB }
  val ghost catn_step (ws: seqS) (k: int) : unit requires { 0 <= k } ensures { catn ws (k + 1) = catB (catn ws k) (getS ws k) }
  let ghost catn_1 (ws: seqS) : unit ensures { catn ws 1 = getS ws 0 } = catn_0 ws; catn_step ws 0; assert { eqB (catB emptyB (getS ws 0)) (getS ws 0) }
  predicate litp (r: seqR) (ws: seqS) (k: int)
  axiom litp_def: forall r ws k [litp r ws k]. litp r ws k <-> forall i [getS ws i]. 0 <= i < k -> exists c. orb (getR r i) c /\ getS ws i = string_of_rune c
  (* what a node matches when its parts match what x says, or more: . and x* may match anything, and x+ anything that starts with an x and ends with one *)
  predicate rok (h: rh) (x: int -> seqB -> bool) (c: int) (w: seqB)
  axiom rok_def: forall h x c w [rok h x c w]. rok h x c w <->
    let n = h c in let s = getP n.x_Sub 0 in
    (n.x_Op = 2 \/ 7 <= n.x_Op <= 12) /\ w = emptyB
    \/ n.x_Op = 3 /\ mod n.x_Flags 2 = 0 /\ w = string_of_runes n.x_Rune
    \/ n.x_Op = 3 /\ mod n.x_Flags 2 <> 0 /\ (exists ws. litp n.x_Rune ws (lenR n.x_Rune) /\ w = catn ws (lenR n.x_Rune))
    \/ n.x_Op = 4 /\ (exists i r. 0 <= i /\ 2 * i + 1 < lenR n.x_Rune /\ getR n.x_Rune (2 * i) <= r <= getR n.x_Rune (2 * i + 1) /\ w = string_of_rune r)
    \/ n.x_Op = 5 \/ n.x_Op = 6 \/ n.x_Op = 14 \/ n.x_Op = 17 /\ n.x_Min = 0
    \/ n.x_Op = 13 /\ x s w
    \/ (n.x_Op = 15 \/ n.x_Op = 17) /\ (x s w \/ exists u v m. x s u /\ x s v /\ w = catB u (catB m v))
    \/ n.x_Op = 16 /\ (w = emptyB \/ x s w)
    \/ n.x_Op = 18 /\ (exists ws. lenS ws = lenP n.x_Sub /\ (forall i. 0 <= i < lenP n.x_Sub -> x (getP n.x_Sub i) (getS ws i)) /\ w = catn ws (lenP n.x_Sub))
    \/ n.x_Op = 19 /\ (exists i. 0 <= i < lenP n.x_Sub /\ x (getP n.x_Sub i) w)
  predicate lang (h: rh) (a: int) (w: seqB)
  function langf (h: rh) : int -> seqB -> bool
  axiom langf_def: forall h b v [langf h b v]. langf h b v <-> lang h b v
  (* the least relation with that property *)
  val ghost lang_def (h: rh) (a: int) (w: seqB) : unit ensures { lang h a w <-> forall x: int -> seqB -> bool. (forall c v. rok h x c v -> x c v) -> x a w }
  let ghost lang_min (h: rh) (a: int) (w: seqB) (x: int -> seqB -> bool) : unit requires { lang h a w } requires { forall c v. rok h x c v -> x c v } ensures { x a w } = lang_def h a w
  let ghost rok_mono (h: rh) (x y: int -> seqB -> bool) (c: int) (w: seqB) : unit requires { rok h x c w } requires { forall b v. x b v -> y b v } ensures { rok h y c w } = ()
  let ghost lang_in (h: rh) (a: int) (w: seqB) : unit requires { rok h (langf h) a w } ensures { lang h a w }
  = let lemma one (x: int -> seqB -> bool) : unit requires { forall c v. rok h x c v -> x c v } ensures { x a w }
    = let lemma two (b: int) (v: seqB) : unit requires { lang h b v } ensures { x b v } = lang_min h b v x in
      rok_mono h (langf h) x a w in
    lang_def h a w
  let ghost lang_out (h: rh) (a: int) (w: seqB) : unit requires { lang h a w } ensures { rok h (langf h) a w }
  = let ghost x = pure { fun b v -> rok h (langf h) b v } in
    let lemma st (c: int) (v: seqB) : unit requires { rok h x c v } ensures { x c v }
    = let lemma two (b: int) (u: seqB) : unit requires { x b u } ensures { lang h b u } = lang_in h b u in
      rok_mono h x (langf h) c v in
    lang_min h a w x
  predicate shape (r: regexp_t) (n: int) =
    1 <= r.x_Op <= 19 /\     (13 <= r.x_Op <= 17 -> lenP r.x_Sub >= 1) /\ (forall i [getP r.x_Sub i]. 0 <= i < lenP r.x_Sub -> 0 < getP r.x_Sub i <= n) /\
    (forall i [getR r.x_Rune i]. 0 <= i < lenR r.x_Rune -> 0 <= getR r.x_Rune i <= 0x10ffff) /\
    (r.x_Op = 4 -> lenR r.x_Rune <= 0x7fffffff /\ (mod (lenR r.x_Rune) 2 = 0 \/ lenR r.x_Rune = 1) /\
      forall i. 0 <= i -> 2 * i + 1 < lenR r.x_Rune -> getR r.x_Rune (2 * i) <= getR r.x_Rune (2 * i + 1))
  (* the regexps, as syntax.Parse makes them *)
  predicate wfh (h: rh) (n: int)
  axiom wfh_def: forall h n [wfh h n]. wfh h n <-> 0 <= n /\ forall c [h c]. 0 < c <= n -> shape (h c) n
  predicate samer (h g: rh) (n: int)
  axiom samer_def: forall h g n [samer h g n]. samer h g n <-> forall c. 0 < c <= n -> g c = h c
  let ghost frame_one (h g: rh) (n: int) (x: int -> seqB -> bool) (c: int) (v: seqB) : unit requires { shape (h c) n /\ g c = h c } requires { rok h x c v }
    requires { forall b u. x b u -> 0 < b <= n -> lang g b u } ensures { rok g (langf g) c v }
  = let ghost y = pure { fun b u -> x b u /\ 0 < b <= n } in
    let ghost s = getP (h c).x_Sub 0 in
    assert { 13 <= (h c).x_Op <= 17 -> 0 < s <= n };
    assert { rok h y c v };
    rok_mono h y (langf g) c v
  let ghost lang_frame (h g: rh) (n: int) : unit requires { wfh h n /\ samer h g n } ensures { forall a w. 0 < a <= n -> lang h a w -> lang g a w }
  = let ghost x = pure { fun b v -> 0 < b <= n -> lang g b v } in
    let lemma st (c: int) (v: seqB) : unit requires { rok h x c v } ensures { x c v }
    = if pure { 0 < c <= n } then begin
        assert { shape (h c) n /\ g c = h c };
        frame_one h g n x c v;
        lang_in g c v end in
    let lemma one (a: int) (w: seqB) : unit requires { lang h a w } ensures { x a w } = lang_min h a w x in ()
  (* from h, a new query r was made *)
  predicate fresh (h: qh) (n: int) (g: qh) (m r: int)
  axiom fresh_def: forall h n g m r [fresh h n g m r]. fresh h n g m r <-> valid g m r /\ consts g m /\ 0 <= n <= m /\
    (forall b. 0 < b <= n -> g b = h b) /\ (forall b. reach g r b -> b > n \/ b = a_all \/ b = a_none)
  let ghost fresh_keep (h: qh) (n: int) (g: qh) (m r u: int) : unit requires { fresh h n g m r /\ valid h n u }
    ensures { valid g m u /\ keep h g u /\ disj g u r /\ disj g r u } ensures { forall i v. i.i_match = u -> fitsi h i v -> fitsi g i v }
  = assert { same h g u }; valid_frame h g n m u; assert { forall b. reach g u b -> 0 < b <= n };
    let lemma one (e p s: seqS) (v: seqB) : unit requires { fits h u e p s v } ensures { fits g u e p s v } = () in ()
  let ghost fresh_trans (h: qh) (n: int) (g: qh) (m r: int) (f: qh) (k t: int) : unit requires { fresh h n g m r /\ step g m r f k t } ensures { fresh h n f k t }
  = let lemma a (b: int) : unit requires { 0 < b <= n } ensures { f b = h b } = assert { not own g r b } in
    let lemma b (b: int) : unit requires { reach f t b } ensures { b > n \/ b = a_all \/ b = a_none } = () in ()
  (* two new queries made one after the other and joined *)
  let ghost fresh_join (h: qh) (n: int) (g: qh) (m r: int) (f: qh) (k t: int) (e: qh) (l o: int) : unit
    requires { fresh h n g m r /\ fresh g m f k t } requires { step2 f k r t e l o \/ step2 f k t r e l o } ensures { fresh h n e l o }
  = fresh_keep g m f k t r;
    let lemma a (b: int) : unit requires { 0 < b <= n } ensures { e b = h b } = assert { not own f r b }; assert { not own f t b } in
    let lemma b (b: int) : unit requires { reach e o b } ensures { b > n \/ b = a_all \/ b = a_none } = () in ()
  let ghost base (h: qh) (n: int) : unit requires { consts h n } requires { 0 <= n }
    ensures { fresh h n h n a_all /\ fresh h n h n a_none } ensures { forall s. sat h s a_all } ensures { forall b. reach h a_all b -> b = a_all }
  = let lemma na (b: int) : unit requires { reach h a_all b } ensures { b = a_all } = reach_case h a_all b in
    let lemma nn (b: int) : unit requires { reach h a_none b } ensures { b = a_none } = reach_case h a_none b in
    reach_refl h a_none; acc_intro h a_none; reach_refl h a_all; acc_intro h a_all;
    let lemma s (s: seqB -> bool) : unit ensures { sat h s a_all } = sat_def h s a_all in ()
  let ghost one_mem (x: seqB) : unit ensures { memS (snocS emptyS x) x /\ nnS (snocS emptyS x) } = assert { getS (snocS emptyS x) 0 = x }
  let ghost any_has (d: bool) (v: seqB) : unit ensures { has d (snocS emptyS emptyB) v } = one_mem emptyB; assert { isx d emptyB v }
  predicate lstr (h: rh) (s: seqP) (ws: seqS) (k: int)
  axiom lstr_def: forall h s ws k [lstr h s ws k]. lstr h s ws k <-> forall j [getS ws j]. 0 <= j < k -> lang h (getP s j) (getS ws j)
  (* the runes of a class given as pairs r, r *)
  predicate pin (s: seqR) (c: int)
  axiom pin_def: forall s c [pin s c]. pin s c <-> exists i. 0 <= i /\ 2 * i + 1 < lenR s /\ getR s (2 * i) = c
  predicate pairs (s: seqR)
  axiom pairs_def: forall s [pairs s]. pairs s <-> mod (lenR s) 2 = 0 /\ (forall i [getR s (2 * i)]. 0 <= i -> 2 * i + 1 < lenR s -> getR s (2 * i + 1) = getR s (2 * i)) /\
    (forall i [getR s i]. 0 <= i < lenR s -> 0 <= getR s i <= 0x10ffff)
  let ghost pin_add (s t: seqR) (r: int) : unit requires { pairs s } requires { t = snocR (snocR s r) r } requires { 0 <= r <= 0x10ffff }
    ensures { pairs t } ensures { forall c. pin t c <-> pin s c \/ c = r } ensures { lenR t = lenR s + 2 }
  = let ghost m = div (lenR s) 2 in
    assert { lenR s = 2 * m /\ m >= 0 };
    assert { forall i. 0 <= i < lenR s -> getR t i = getR s i };
    assert { getR t (2 * m) = r /\ getR t (2 * m + 1) = r };
    assert { pin t r };
    let lemma up (c: int) : unit requires { pin s c } ensures { pin t c } = () in
    let lemma down (c: int) : unit requires { pin t c } ensures { pin s c \/ c = r } = () in
    let lemma eq (i: int) : unit requires { 0 <= i /\ 2 * i + 1 < lenR t } ensures { getR t (2 * i + 1) = getR t (2 * i) } = if i < m then assert { getR s (2 * i + 1) = getR s (2 * i) } else assert { i = m } in
    ()
  let ghost pin_orb (s: seqR) (a: int) : unit requires { pin s a } requires { forall c. pin s c -> pin s (sfold c) } ensures { forall c. orb a c -> pin s c }
  = let ghost x = pure { fun c -> pin s c } in
    let lemma one (c: int) : unit requires { orb a c } ensures { pin s c } = orb_out a c x in ()
  let ghost pin_lang (h: rh) (a r c: int) : unit requires { (h a).x_Op = 4 /\ pin (h a).x_Rune c /\ pairs (h a).x_Rune } ensures { lang h a (string_of_rune c) }
  = assert { rok h (langf h) a (string_of_rune c) }; lang_in h a (string_of_rune c)
  let ghost one_lang (h: rh) (a c: int) : unit requires { (h a).x_Op = 3 /\ (h a).x_Flags = 1 /\ lenR (h a).x_Rune = 1 /\ orb (getR (h a).x_Rune 0) c } ensures { lang h a (string_of_rune c) }
  = let ghost ws = pure { snocS emptyS (string_of_rune c) } in catn_1 ws; assert { getS ws 0 = string_of_rune c }; assert { litp (h a).x_Rune ws 1 };
    assert { rok h (langf h) a (string_of_rune c) }; lang_in h a (string_of_rune c)
endwhy

extern unicode.SimpleFold
  val x_unicode_SimpleFold (r: int) : int ensures { result = sfold r } ensures { 0 <= r <= 0x10ffff -> 0 <= result <= 0x10ffff }
func index.anyMatch inline
func index.anyChar inline
func index.noMatch inline
func index.emptyString inline
func index.fold inline
func index.analyze noterm
  requires consts h_query_t alloc_query_t /\ 0 < re <= alloc_regexp_t /\ wfh h_regexp_t alloc_regexp_t
  at entry: let ghost h0 = pure { h_query_t } in let ghost n0 = pure { alloc_query_t } in let ghost g0 = pure { h_regexp_t } in let ghost k0 = pure { alloc_regexp_t } in let ghost re0 = re in
    base h0 n0; one_mem emptyB; assert { shape (g0 re0) k0 };
    let lemma inv (w: seqB) : unit requires { lang g0 re0 w } ensures { rok g0 (langf g0) re0 w } = lang_out g0 re0 w in
    let lemma ic (w: seqB) : unit requires { lang g0 re0 w } requires { (g0 re0).x_Op = 18 } ensures { exists ws. lstr g0 (g0 re0).x_Sub ws (lenP (g0 re0).x_Sub) /\ w = catn ws (lenP (g0 re0).x_Sub) } = lang_out g0 re0 w in
    let lemma il (w: seqB) : unit requires { lang g0 re0 w } requires { (g0 re0).x_Op = 3 /\ mod (g0 re0).x_Flags 2 <> 0 } ensures { exists ws. litp (g0 re0).x_Rune ws (lenR (g0 re0).x_Rune) /\ w = catn ws (lenR (g0 re0).x_Rune) } = lang_out g0 re0 w in
    let lemma c0 (ws: seqS) : unit ensures { catn ws 0 = emptyB } = catn_0 ws in
    let lemma c1 (ws: seqS) : unit ensures { catn ws 1 = getS ws 0 } = catn_1 ws in
    let lemma ah (d: bool) (v: seqB) : unit ensures { has d (snocS emptyS emptyB) v } = any_has d v in
    assert { samer g0 g0 k0 }
  loop 1
    invariant re1 = k0 + 1 /\ alloc_regexp_t = k0 + 1 /\ samer g0 h_regexp_t k0 /\ (h_regexp_t re1).x_Op = 4 /\ lenP (h_regexp_t re1).x_Sub = 0
    invariant orb r0 r1 /\ 0 <= r1 <= 0x10ffff /\ pairs (h_regexp_t re1).x_Rune /\ lenR (h_regexp_t re1).x_Rune <= 2000
    invariant r1 <> r0 -> lenR (h_regexp_t re1).x_Rune = 2 * ord r0 r1
    invariant pin (h_regexp_t re1).x_Rune r0 /\ forall c. pin (h_regexp_t re1).x_Rune c -> pin (h_regexp_t re1).x_Rune (sfold c) \/ sfold c = r1
    variant if r1 = r0 then 0 else 1001 - ord r0 r1
  at loop 1 begin: pin_add (pure { (h_regexp_t re1).x_Rune }) (pure { snocR (snocR (h_regexp_t re1).x_Rune r1) r1 }) r1; orb_in r0 r1; assert { ord r0 r1 < 1000 }
  at loop 1 before: pin_add emptyR (pure { (h_regexp_t re1).x_Rune }) r0; orb_in r0 r0; assert { r1 = sfold r0 }; assert { ord r0 r0 = 0 }
  at call analyze#1 before: let ghost g1 = pure { h_regexp_t } in let ghost rn = pure { (h_regexp_t re1).x_Rune } in let ghost a1 = re1 in pin_orb rn r0;
    assert { shape (g1 re1) (k0 + 1) }; assert { wfh g1 (k0 + 1) };
    let lemma li (w: seqB) : unit requires { lang g0 re0 w } ensures { lang g1 a1 w } = lang_out g0 re0 w;
      let lemma pl (c: int) : unit requires { pin rn c } ensures { lang g1 a1 (string_of_rune c) } = pin_lang g1 a1 c c in
      assert { exists ws. litp (g0 re0).x_Rune ws 1 /\ w = catn ws 1 }; assert { exists c. orb (getR (g0 re0).x_Rune 0) c /\ w = string_of_rune c } in
  loop 2
    invariant alloc_regexp_t >= re1 /\ wfh h_regexp_t alloc_regexp_t /\ samer g0 h_regexp_t k0
    invariant re1 = k0 + 1 /\ (h_regexp_t re1).x_Op = 3 /\ (h_regexp_t re1).x_Flags = 1 /\ lenP (h_regexp_t re1).x_Sub = 0
    invariant fresh h0 n0 h_query_t alloc_query_t info.i_match
    invariant forall ws. litp rg2 ws i -> fitsi h_query_t info (catn ws i)
  at loop 2 before: assert { shape (h_regexp_t re1) (k0 + 1) }; assert { wfh h_regexp_t alloc_regexp_t }; assert { samer g0 h_regexp_t k0 }; assert { forall w. w = emptyB -> fitsi h_query_t info w }
  at call analyze#2 before: assert { shape (h_regexp_t re1) alloc_regexp_t }; assert { wfh h_regexp_t alloc_regexp_t }; let ghost ik = i in let ghost a1 = re1 in
    let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost g1 = pure { h_regexp_t } in lang_frame g0 g1 k0;
    let lemma fk (g: qh) (m r u: int) : unit requires { fresh h1 n1 g m r /\ fresh h0 n0 h1 n1 u } ensures { valid g m r /\ valid g m u /\ disj g u r /\ disj g r u /\ consts g m } ensures { forall i v. i.i_match = u -> fitsi h1 i v -> fitsi g i v } = fresh_keep h1 n1 g m r u in
    let lemma fj (r: int) (f: qh) (k t: int) (e: qh) (l o: int) : unit requires { fresh h0 n0 h1 n1 r /\ fresh h1 n1 f k t } requires { step2 f k r t e l o } ensures { fresh h0 n0 e l o } = fresh_join h0 n0 h1 n1 r f k t e l o in
    assert { getR (g1 a1).x_Rune 0 = getR (g0 re0).x_Rune ik };
    let lemma ol (c: int) : unit requires { orb (getR (g0 re0).x_Rune ik) c } ensures { lang g1 a1 (string_of_rune c) } = one_lang g1 a1 c in
    let lemma cs (ws: seqS) : unit requires { litp (g0 re0).x_Rune ws (ik + 1) } ensures { litp (g0 re0).x_Rune ws ik /\ lang g1 a1 (getS ws ik) /\ catn ws (ik + 1) = catB (catn ws ik) (getS ws ik) } = catn_step ws ik in
  at call analyze#5 in: assert { 0 < getP sub 0 <= k0 }
  at call analyze#6 in: let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost g1 = pure { h_regexp_t } in lang_frame g0 g1 k0;
    let lemma fk (g: qh) (m r u: int) : unit requires { fresh h1 n1 g m r /\ fresh h0 n0 h1 n1 u } ensures { valid g m r /\ valid g m u /\ disj g u r /\ disj g r u /\ consts g m } ensures { forall i v. i.i_match = u -> fitsi h1 i v -> fitsi g i v } = fresh_keep h1 n1 g m r u in
    let lemma fj (r: int) (f: qh) (k t: int) (e: qh) (l o: int) : unit requires { fresh h0 n0 h1 n1 r /\ fresh h1 n1 f k t } requires { step2 f k r t e l o } ensures { fresh h0 n0 e l o } = fresh_join h0 n0 h1 n1 r f k t e l o in assert { 0 < getP sub 1 <= k0 }
  at call concat#2 before: let ghost s0 = pure { (g0 re0).x_Sub } in let lemma cs (ws: seqS) : unit requires { lstr g0 s0 ws 2 } ensures { lang g0 (getP s0 0) (getS ws 0) /\ lang g0 (getP s0 1) (getS ws 1) /\ catn ws 2 = catB (getS ws 0) (getS ws 1) } = catn_step ws 1 in
  loop 3
    invariant 2 <= i <= lenP sub /\ sub = (g0 re0).x_Sub
    invariant fresh h0 n0 h_query_t alloc_query_t info.i_match
    invariant wfh h_regexp_t alloc_regexp_t /\ alloc_regexp_t >= k0 /\ samer g0 h_regexp_t k0
    invariant forall ws. lstr g0 sub ws i -> fitsi h_query_t info (catn ws i)
    variant lenP sub - i
  at call analyze#7 before: let ghost ik = i in let ghost s0 = pure { (g0 re0).x_Sub } in let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost g1 = pure { h_regexp_t } in lang_frame g0 g1 k0;
    let lemma fk (g: qh) (m r u: int) : unit requires { fresh h1 n1 g m r /\ fresh h0 n0 h1 n1 u } ensures { valid g m r /\ valid g m u /\ disj g u r /\ disj g r u /\ consts g m } ensures { forall i v. i.i_match = u -> fitsi h1 i v -> fitsi g i v } = fresh_keep h1 n1 g m r u in
    let lemma fj (r: int) (f: qh) (k t: int) (e: qh) (l o: int) : unit requires { fresh h0 n0 h1 n1 r /\ fresh h1 n1 f k t } requires { step2 f k r t e l o } ensures { fresh h0 n0 e l o } = fresh_join h0 n0 h1 n1 r f k t e l o in assert { 0 < getP sub ik <= k0 };
    let lemma cs (ws: seqS) : unit requires { lstr g0 s0 ws (ik + 1) } ensures { lstr g0 s0 ws ik /\ lang g0 (getP s0 ik) (getS ws ik) /\ catn ws (ik + 1) = catB (catn ws ik) (getS ws ik) } = catn_step ws ik in
  at loop 3 after: assert { forall w. lang g0 re0 w -> fitsi h_query_t info w }
  at call analyze#10 in: let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost g1 = pure { h_regexp_t } in lang_frame g0 g1 k0;
    let lemma fk (g: qh) (m r u: int) : unit requires { fresh h1 n1 g m r /\ fresh h0 n0 h1 n1 u } ensures { valid g m r /\ valid g m u /\ disj g u r /\ disj g r u /\ consts g m } ensures { forall i v. i.i_match = u -> fitsi h1 i v -> fitsi g i v } = fresh_keep h1 n1 g m r u in
    let lemma fj (r: int) (f: qh) (k t: int) (e: qh) (l o: int) : unit requires { fresh h0 n0 h1 n1 r /\ fresh h1 n1 f k t } requires { step2 f k r t e l o } ensures { fresh h0 n0 e l o } = fresh_join h0 n0 h1 n1 r f k t e l o in assert { 0 < getP sub 1 <= k0 }
  loop 4
    invariant 2 <= i <= lenP sub /\ sub = (g0 re0).x_Sub
    invariant fresh h0 n0 h_query_t alloc_query_t info.i_match
    invariant wfh h_regexp_t alloc_regexp_t /\ alloc_regexp_t >= k0 /\ samer g0 h_regexp_t k0
    invariant forall j w. 0 <= j < i -> lang g0 (getP sub j) w -> fitsi h_query_t info w
    variant lenP sub - i
  at call analyze#11 before: let ghost ik = i in let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost g1 = pure { h_regexp_t } in lang_frame g0 g1 k0;
    let lemma fk (g: qh) (m r u: int) : unit requires { fresh h1 n1 g m r /\ fresh h0 n0 h1 n1 u } ensures { valid g m r /\ valid g m u /\ disj g u r /\ disj g r u /\ consts g m } ensures { forall i v. i.i_match = u -> fitsi h1 i v -> fitsi g i v } = fresh_keep h1 n1 g m r u in
    let lemma fj (r: int) (f: qh) (k t: int) (e: qh) (l o: int) : unit requires { fresh h0 n0 h1 n1 r /\ fresh h1 n1 f k t } requires { step2 f k r t e l o } ensures { fresh h0 n0 e l o } = fresh_join h0 n0 h1 n1 r f k t e l o in assert { 0 < getP sub ik <= k0 }
  at loop 4 after: assert { forall w. lang g0 re0 w -> fitsi h_query_t info w }
  at call alternate#3 in: let ghost h1 = pure { h_query_t } in let ghost n1 = pure { alloc_query_t } in let ghost g1 = pure { h_regexp_t } in lang_frame g0 g1 k0;
    let lemma fk (g: qh) (m r u: int) : unit requires { fresh h1 n1 g m r /\ fresh h0 n0 h1 n1 u } ensures { valid g m r /\ valid g m u /\ disj g u r /\ disj g r u /\ consts g m } ensures { forall i v. i.i_match = u -> fitsi h1 i v -> fitsi g i v } = fresh_keep h1 n1 g m r u in
    let lemma fj (r: int) (f: qh) (k t: int) (e: qh) (l o: int) : unit requires { fresh h0 n0 h1 n1 r /\ fresh h1 n1 f k t } requires { step2 f k r t e l o } ensures { fresh h0 n0 e l o } = fresh_join h0 n0 h1 n1 r f k t e l o in base h1 n1
  at call analyze#13 after: let ghost s0 = pure { getP (g0 re0).x_Sub 0 } in let ghost hq = pure { h_query_t } in let ghost mq = pure { info.i_match } in let ghost e1 = pure { info.i_exact } in let ghost p1 = pure { info.i_prefix } in let ghost s1 = pure { info.i_suffix } in
    let lemma pw (w: seqB) : unit requires { lang g0 re0 w } ensures { forall x. tris w x -> sat hq x mq } ensures { if nnS e1 then has false e1 w /\ has true e1 w else has false p1 w /\ has true s1 w }
    = lang_out g0 re0 w; if pure { memS e1 w } then begin has_mem false e1 w; has_mem true e1 w end;
      let lemma two (u v m: seqB) : unit requires { lang g0 s0 u /\ lang g0 s0 v } requires { w = catB u (catB m v) } ensures { forall x. tris w x -> sat hq x mq } ensures { if nnS e1 then has false e1 w /\ has true e1 w else has false p1 w /\ has true s1 w }
      = let lemma tc (x: seqB -> bool) : unit requires { tris w x } ensures { sat hq x mq } = tris_cat u (catB m v) x in
        if pure { nnS e1 } then begin has_mem false e1 u; has_mem true e1 v; has_cat u (catB m v) e1; has_cat m v e1 end
        else begin has_cat u (catB m v) p1; has_cat m v s1; has_cat u (catB m v) s1 end in
      () in
  at call analyze#14 after: let ghost s0 = pure { getP (g0 re0).x_Sub 0 } in let ghost hq = pure { h_query_t } in let ghost mq = pure { info.i_match } in let ghost e1 = pure { info.i_exact } in let ghost p1 = pure { info.i_prefix } in let ghost s1 = pure { info.i_suffix } in
    let lemma pw (w: seqB) : unit requires { lang g0 re0 w } ensures { forall x. tris w x -> sat hq x mq } ensures { if nnS e1 then has false e1 w /\ has true e1 w else has false p1 w /\ has true s1 w }
    = lang_out g0 re0 w; if pure { memS e1 w } then begin has_mem false e1 w; has_mem true e1 w end;
      let lemma two (u v m: seqB) : unit requires { lang g0 s0 u /\ lang g0 s0 v } requires { w = catB u (catB m v) } ensures { forall x. tris w x -> sat hq x mq } ensures { if nnS e1 then has false e1 w /\ has true e1 w else has false p1 w /\ has true s1 w }
      = let lemma tc (x: seqB -> bool) : unit requires { tris w x } ensures { sat hq x mq } = tris_cat u (catB m v) x in
        if pure { nnS e1 } then begin has_mem false e1 u; has_mem true e1 v; has_cat u (catB m v) e1; has_cat m v e1 end
        else begin has_cat u (catB m v) p1; has_cat m v s1; has_cat u (catB m v) s1 end in
      () in
  loop 5
    invariant mod i 2 = 0 /\ 0 <= i <= lenR (g0 re0).x_Rune + 1
    invariant 0 <= n <= i * 0x10ffff
    variant lenR (g0 re0).x_Rune - i
  at loop 5 begin: let ghost q = pure { div i 2 } in assert { i = 2 * q }; assert { 2 * q + 1 < lenR (g0 re0).x_Rune }; assert { getR (g0 re0).x_Rune (2 * q) <= getR (g0 re0).x_Rune (2 * q + 1) }
  loop 6
    invariant mod i 2 = 0 /\ 0 <= i <= lenR (g0 re0).x_Rune + 1 /\ nnS info.i_exact
    invariant forall q r. 0 <= q -> 2 * q + 1 < i -> getR (g0 re0).x_Rune (2 * q) <= r <= getR (g0 re0).x_Rune (2 * q + 1) -> memS info.i_exact (string_of_rune r)
    variant lenR (g0 re0).x_Rune - i
  at loop 6 begin: let ghost q = pure { div i 2 } in assert { i = 2 * q }; assert { 2 * q + 1 < lenR (g0 re0).x_Rune }; assert { getR (g0 re0).x_Rune (2 * q) <= getR (g0 re0).x_Rune (2 * q + 1) }
  loop 7
    invariant lo <= rr <= hi + 1 /\ nnS info.i_exact
    invariant forall x. memS info_L7.i_exact x -> memS info.i_exact x
    invariant forall r. lo <= r < rr -> memS info.i_exact (string_of_rune r)
    variant hi + 1 - rr
  at loop 7 begin: let ghost e1 = pure { info.i_exact } in let ghost f1 = pure { snocS info.i_exact (string_of_rune rr) } in
    assert { forall j. 0 <= j < lenS e1 -> getS f1 j = getS e1 j }; assert { forall x. memS e1 x -> memS f1 x }; assert { getS f1 (lenS e1) = string_of_rune rr }; assert { memS f1 (string_of_rune rr) }
  at call simplify#1 before: let ghost hs = pure { h_query_t } in let ghost ns = pure { alloc_query_t } in let ghost ms = pure { info.i_match } in
    assert { fresh h0 n0 hs ns ms }; assert { forall w. lang g0 re0 w -> fitsi h_query_t info w }
  at call simplify#1 after: fresh_trans h0 n0 hs ns ms (pure { h_query_t }) (pure { alloc_query_t }) (pure { info.i_match })
  ensures [nothing is changed, and the query consists of new nodes] fresh (old h_query_t) (old alloc_query_t) h_query_t alloc_query_t ret.i_match
  ensures wfh h_regexp_t alloc_regexp_t /\ alloc_regexp_t >= old alloc_regexp_t /\ samer (old h_regexp_t) h_regexp_t (old alloc_regexp_t)
  ensures [every string the regexp matches fits] forall w. lang (old h_regexp_t) re w -> fitsi h_query_t ret w
func index.RegexpQuery
  requires consts h_query_t alloc_query_t /\ 0 < re <= alloc_regexp_t /\ wfh h_regexp_t alloc_regexp_t
  at entry: let ghost h0 = pure { h_query_t } in let ghost n0 = pure { alloc_query_t } in let ghost g0 = pure { h_regexp_t } in let ghost re0 = re in
  at call simplify#1 before: let ghost hs = pure { h_query_t } in let ghost ns = pure { alloc_query_t } in let ghost ms = pure { info.i_match } in assert { fresh h0 n0 hs ns ms }
  at call simplify#1 after: fresh_trans h0 n0 hs ns ms (pure { h_query_t }) (pure { alloc_query_t }) (pure { info.i_match });
    let ghost ht = pure { h_query_t } in let ghost nt = pure { alloc_query_t } in let ghost mt = pure { info.i_match } in assert { fresh h0 n0 ht nt mt };
    assert { forall w. lang g0 re0 w -> fitsi h_query_t info w }
  at call andTrigrams#1 after: fresh_trans h0 n0 ht nt mt (pure { h_query_t }) (pure { alloc_query_t }) (pure { info.i_match }); assert { forall w s. lang g0 re0 w -> tris w s -> sat h_query_t s info.i_match }
  at return *: assert { forall w s. lang g0 re0 w -> tris w s -> sat h_query_t s info.i_match };
    let ghost h1 = pure { h_query_t } in let ghost m1 = pure { info.i_match } in
    let lemma su (w v: seqB) (k: int) (s: seqB -> bool) : unit requires { lang g0 re0 w /\ infix w v k /\ tris v s } ensures { sat h1 s m1 } = tris_sub w v k s in
  ensures [nothing is changed, and the query consists of new nodes] fresh (old h_query_t) (old alloc_query_t) h_query_t alloc_query_t res0
  ensures [a file that has a string the regexp matches satisfies the query] forall w v k s. lang (old h_regexp_t) re w -> infix w v k -> tris v s -> sat h_query_t s res0
