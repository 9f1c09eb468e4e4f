# C07: the intermediate sort, a two-pass radix sort.
unit sort
package index
use []index.postEntry []int
global sortTmp var seqU64
global sortN var seqI

why
  use map.Map
  (* a digit of an entry: 12 bits from the one worth k up *)
  function digit (k x: int) : int
  axiom digit_range: forall k x [digit k x]. 0 <= digit k x < 4096
  axiom digit_lo: forall x [digit 1099511627776 x]. digit 1099511627776 x = mod (div x 1099511627776) 4096
  axiom digit_hi: forall x [digit 4503599627370496 x]. digit 4503599627370496 x = mod (div x 4503599627370496) 4096
  (* how many of the first i entries have digit r; how many of the first n have a digit below r *)
  function cnt (s: seqU64) (k r i: int) : int
  axiom cnt_0: forall s k r [cnt s k r 0]. cnt s k r 0 = 0
  axiom cnt_s: forall s k r i. 0 <= i -> cnt s k r (i+1) = cnt s k r i + (if digit k (getU64 s i) = r then 1 else 0)
  function below (s: seqU64) (k n r: int) : int
  axiom below_0: forall s k n [below s k n 0]. below s k n 0 = 0
  axiom below_s: forall s k n r. 0 <= r -> below s k n (r+1) = below s k n r + cnt s k r n

  let rec ghost cnt_le (s: seqU64) (k r i n: int) : unit
    requires { 0 <= i <= n } ensures { 0 <= cnt s k r i <= cnt s k r n <= cnt s k r i + n - i } variant { n }
  = if n > i then begin cnt_le s k r i (n - 1); assert { cnt s k r ((n-1)+1) = cnt s k r (n-1) + (if digit k (getU64 s (n-1)) = r then 1 else 0) } end
    else if n > 0 then begin cnt_le s k r (n-1) (n-1); assert { cnt s k r ((n-1)+1) = cnt s k r (n-1) + (if digit k (getU64 s (n-1)) = r then 1 else 0) } end
  let rec ghost below_le (s: seqU64) (k n r q: int) : unit
    requires { 0 <= r < q /\ 0 <= n } ensures { 0 <= below s k n r /\ below s k n r + cnt s k r n <= below s k n q } variant { q }
  = cnt_le s k (q-1) 0 n; cnt_le s k r 0 n; cnt_le s k 0 0 n;
    assert { below s k n ((q-1)+1) = below s k n (q-1) + cnt s k (q-1) n };
    if q - 1 > r then below_le s k n r (q - 1)
    else if r > 0 then below_le s k n 0 r
  let rec ghost below_step (s: seqU64) (k n r: int) : unit
    requires { 0 <= r /\ 0 <= n } ensures { below s k (n+1) r = below s k n r + (if digit k (getU64 s n) < r then 1 else 0) } variant { r }
  = if r > 0 then begin below_step s k n (r-1);
      assert { below s k (n+1) ((r-1)+1) = below s k (n+1) (r-1) + cnt s k (r-1) (n+1) };
      assert { below s k n ((r-1)+1) = below s k n (r-1) + cnt s k (r-1) n };
      assert { cnt s k (r-1) (n+1) = cnt s k (r-1) n + (if digit k (getU64 s n) = r-1 then 1 else 0) } end
  let rec ghost below_zero (s: seqU64) (k r: int) : unit
    requires { 0 <= r } ensures { below s k 0 r = 0 } variant { r }
  = if r > 0 then begin below_zero s k (r-1); assert { below s k 0 ((r-1)+1) = below s k 0 (r-1) + cnt s k (r-1) 0 } end
  let rec ghost below_all (s: seqU64) (k n: int) : unit
    requires { 0 <= n } ensures { below s k n 4096 = n } variant { n }
  = if n = 0 then below_zero s k 4096
    else begin below_all s k (n-1); below_step s k (n-1) 4096; assert { 0 <= digit k (getU64 s (n-1)) < 4096 } end
  let rec ghost bucket (s: seqU64) (k n p r: int) : int
    requires { 0 <= p < below s k n r /\ 0 <= n /\ 0 <= r } ensures { 0 <= result < r /\ below s k n result <= p < below s k n result + cnt s k result n } variant { r }
  = if r = 0 then absurd else begin
      assert { below s k n ((r-1)+1) = below s k n (r-1) + cnt s k (r-1) n };
      if pure { p < below s k n (r-1) } then bucket s k n p (r-1) else r - 1 end

  (* t holds the first i entries of s, each where it belongs; inv and pos give the moves *)
  predicate placed (s: seqU64) (k: int) (t: seqU64) (inv pos: map int int) (i: int) =
    let n = lenU64 s in
    (forall r p. 0 <= r < 4096 -> below s k n r <= p < below s k n r + cnt s k r i ->
       0 <= get inv p < i /\ digit k (getU64 s (get inv p)) = r /\ getU64 t p = getU64 s (get inv p) /\ get pos (get inv p) = p) /\
    (forall r p q. 0 <= r < 4096 -> below s k n r <= p < q < below s k n r + cnt s k r i -> get inv p < get inv q) /\
    (forall j. 0 <= j < i -> let r = digit k (getU64 s j) in below s k n r <= get pos j < below s k n r + cnt s k r i /\ get inv (get pos j) = j)
  predicate ranked (s: seqU64) (k: int) (a: seqI) (i: int) =
    forall r. 0 <= r < 4096 -> getI a r = below s k (lenU64 s) r + cnt s k r i
  let ghost counts (s: seqU64) (k i n r: int) : unit
    requires { 0 <= r < 4096 /\ 0 <= i < n }
    ensures { cnt s k r (i+1) = cnt s k r i + (if digit k (getU64 s i) = r then 1 else 0) /\ 0 <= cnt s k r i /\ cnt s k r (i+1) <= cnt s k r n /\ 0 <= below s k n r }
  = cnt_le s k r (i+1) n; cnt_le s k r 0 i; cnt_le s k 0 0 n; if r > 0 then below_le s k n 0 r
  let ghost place (s: seqU64) (k: int) (a b: seqI) (t u: seqU64) (inv pos: map int int) (i o: int) : unit
    requires { 0 <= i < lenU64 s <= 0x3fffffffffffffff /\ lenU64 t = lenU64 s /\ lenI a = 4096 /\ placed s k t inv pos i /\ ranked s k a i }
    requires { o = getI a (digit k (getU64 s i)) /\ u = updU64 t o (getU64 s i) /\ b = updI a (digit k (getU64 s i)) (o + 1) }
    ensures { placed s k u (set inv o i) (set pos i o) (i+1) /\ ranked s k b (i+1) }
  = let n = pure { lenU64 s } in let d = pure { digit k (getU64 s i) } in
    below_all s k n;
    let lemma cs (r: int) : unit requires { 0 <= r < 4096 } ensures { cnt s k r (i+1) = cnt s k r i + (if d = r then 1 else 0) /\ 0 <= cnt s k r i /\ cnt s k r (i+1) <= cnt s k r n /\ 0 <= below s k n r }
      = counts s k i n r in
    let lemma apart (r q: int) : unit requires { 0 <= r < q < 4096 } ensures { below s k n r + cnt s k r n <= below s k n q } = below_le s k n r q in
    below_le s k n d 4096;
    assert { 0 <= o < n /\ o = below s k n d + cnt s k d i };
    let inv1 = pure { set inv o i } in let pos1 = pure { set pos i o } in
    assert { forall r. 0 <= r < 4096 -> getI b r = (if r = d then o + 1 else getI a r) };
    let lemma rk (r: int) : unit requires { 0 <= r < 4096 } ensures { getI b r = below s k n r + cnt s k r (i+1) }
      = assert { getI a r = below s k n r + cnt s k r i }; cs r in
    assert { ranked s k b (i+1) };
    assert { forall p. 0 <= p < n -> getU64 u p = (if p = o then getU64 s i else getU64 t p) };
    let lemma one (r p: int) : unit requires { 0 <= r < 4096 /\ below s k n r <= p < below s k n r + cnt s k r (i+1) }
      ensures { 0 <= p < n /\ if p = o then r = d else below s k n r <= p < below s k n r + cnt s k r i }
      = cs r; below_le s k n r 4096; if p = o then (if r < d then apart r d else if r > d then apart d r) else () in
    let lemma two (r p: int) : unit requires { 0 <= r < 4096 /\ below s k n r <= p < below s k n r + cnt s k r (i+1) }
      ensures { 0 <= get inv1 p < i+1 /\ digit k (getU64 s (get inv1 p)) = r /\ getU64 u p = getU64 s (get inv1 p) /\ get pos1 (get inv1 p) = p }
      = one r p; if p <> o then assert { 0 <= get inv p < i /\ digit k (getU64 s (get inv p)) = r /\ getU64 t p = getU64 s (get inv p) /\ get pos (get inv p) = p } in
    assert { forall r p. 0 <= r < 4096 -> below s k n r <= p < below s k n r + cnt s k r (i+1) ->
       0 <= get inv1 p < i+1 /\ digit k (getU64 s (get inv1 p)) = r /\ getU64 u p = getU64 s (get inv1 p) /\ get pos1 (get inv1 p) = p };
    assert { forall r p q. 0 <= r < 4096 -> below s k n r <= p < q < below s k n r + cnt s k r (i+1) -> get inv1 p < get inv1 q };
    assert { forall j. 0 <= j < i+1 -> let r = digit k (getU64 s j) in below s k n r <= get pos1 j < below s k n r + cnt s k r (i+1) /\ get inv1 (get pos1 j) = j }

  (* t is s in another order: ascending digits, and entries with the same digit in their old order *)
  predicate moved (s t: seqU64) (inv pos: map int int) = lenU64 s = lenU64 t /\
    (forall p. 0 <= p < lenU64 s -> 0 <= get inv p < lenU64 s /\ getU64 t p = getU64 s (get inv p) /\ get pos (get inv p) = p) /\
    (forall j. 0 <= j < lenU64 s -> 0 <= get pos j < lenU64 s /\ get inv (get pos j) = j)
  predicate bydigit (k: int) (t: seqU64) (inv: map int int) =
    forall p q. 0 <= p < q < lenU64 t -> digit k (getU64 t p) < digit k (getU64 t q) \/ digit k (getU64 t p) = digit k (getU64 t q) /\ get inv p < get inv q
  let ghost all_placed (s: seqU64) (k: int) (t: seqU64) (inv pos: map int int) : unit
    requires { lenU64 t = lenU64 s /\ placed s k t inv pos (lenU64 s) }
    ensures { moved s t inv pos /\ bydigit k t inv }
  = let n = plenU64 s in
    below_all s k n;
    let lemma where_ (p: int) : unit requires { 0 <= p < n }
      ensures { let r = digit k (getU64 t p) in 0 <= r < 4096 /\ below s k n r <= p < below s k n r + cnt s k r n }
      = let r = bucket s k n p 4096 in assert { 0 <= get inv p < n /\ digit k (getU64 s (get inv p)) = r /\ getU64 t p = getU64 s (get inv p) }; assert { digit k (getU64 t p) = r } in
    assert { forall p. 0 <= p < n -> 0 <= get inv p < n /\ getU64 t p = getU64 s (get inv p) /\ get pos (get inv p) = p };
    let lemma near (j: int) : unit requires { 0 <= j < n } ensures { 0 <= get pos j < n /\ get inv (get pos j) = j }
      = let r = pure { digit k (getU64 s j) } in below_le s k n r 4096; if r > 0 then below_le s k n 0 r in
    let lemma order (p q: int) : unit requires { 0 <= p < q < n }
      ensures { digit k (getU64 t p) < digit k (getU64 t q) \/ digit k (getU64 t p) = digit k (getU64 t q) /\ get inv p < get inv q }
      = let r = pure { digit k (getU64 t p) } in let v = pure { digit k (getU64 t q) } in
        where_ p; where_ q;
        if v < r then below_le s k n v r in ()

  function tri (x: int) : int = div x 1099511627776   (* the trigram of an entry *)
  (* the two passes together: a permutation, in trigram order, entries of one trigram in their old order *)
  predicate sorted_from (s t: seqU64) (inv pos: map int int) = moved s t inv pos /\
    forall p q. 0 <= p < q < lenU64 t -> tri (getU64 t p) < tri (getU64 t q) \/ tri (getU64 t p) = tri (getU64 t q) /\ get inv p < get inv q
  function comp (f g: map int int) : map int int
  axiom comp_def: forall f g x [get (comp f g) x]. get (comp f g) x = get f (get g x)
  let ghost digits (x: int) : unit
    requires { 0 <= x <= 0xffffffffffffffff } ensures { tri x = 4096 * digit 4503599627370496 x + digit 1099511627776 x }
  = let y = div x 1099511627776 in assert { div x 4503599627370496 = div y 4096 };  assert { 0 <= div y 4096 < 4096 }
  let ghost passes (s u t: seqU64) (inv1 pos1 inv2 pos2: map int int) : unit
    requires { moved s u inv1 pos1 /\ bydigit 1099511627776 u inv1 /\ moved u t inv2 pos2 /\ bydigit 4503599627370496 t inv2 }
    ensures { sorted_from s t (comp inv1 inv2) (comp pos2 pos1) }
  = let lemma order (p q: int) : unit requires { 0 <= p < q < lenU64 t }
      ensures { tri (getU64 t p) < tri (getU64 t q) \/ tri (getU64 t p) = tri (getU64 t q) /\ get inv1 (get inv2 p) < get inv1 (get inv2 q) }
      = digits (getU64 t p); digits (getU64 t q);
        assert { digit 4503599627370496 (getU64 t p) = digit 4503599627370496 (getU64 t q) -> get inv2 p < get inv2 q };
        assert { digit 4503599627370496 (getU64 t p) = digit 4503599627370496 (getU64 t q) -> 
           (digit 1099511627776 (getU64 u (get inv2 p)) < digit 1099511627776 (getU64 u (get inv2 q)) \/ digit 1099511627776 (getU64 u (get inv2 p)) = digit 1099511627776 (getU64 u (get inv2 q)) /\ get inv1 (get inv2 p) < get inv1 (get inv2 q)) } in ()
  val ghost ref g_inv : map int int
  val ghost ref g_pos : map int int
  let ghost none (s: seqU64) (k: int) (a: seqI) (t: seqU64) (inv pos: map int int) : unit
    requires { forall r. 0 <= r < 4096 -> getI a r = below s k (lenU64 s) r } ensures { ranked s k a 0 /\ placed s k t inv pos 0 } = ()
  let ghost more (s: seqU64) (k n i: int) : unit
    requires { 0 <= i < 4096 /\ 0 <= n } ensures { below s k n (i+1) = below s k n i + cnt s k i n /\ below s k n (i+1) <= n /\ 0 <= cnt s k i n /\ 0 <= below s k n i }
  = below_all s k n; cnt_le s k i 0 n; if i < 4095 then below_le s k n (i+1) 4096; below_le s k n i 4096
  let ghost one_more (s: seqU64) (k i: int) : unit
    requires { 0 <= i } ensures { forall r. cnt s k r (i+1) = cnt s k r i + (if digit k (getU64 s i) = r then 1 else 0) }
    ensures { 0 <= cnt s k (digit k (getU64 s i)) i <= i }
  = cnt_le s k (digit k (getU64 s i)) 0 i
endwhy

func index.sortPost
  requires lenI g_sortN = 4096
  ensures [a permutation in trigram order, each trigram's entries in their old order] sorted_from (old post) post g_inv g_pos
  writes g_inv, g_pos
  ensures lenI g_sortN = 4096
  at entry: let ghost ref u = post in let ghost ref inv1 = any (map int int) in let ghost ref pos1 = any (map int int) in
  at loop 4 before: let ghost n1 = plenU64 post in
     none post 1099511627776 g_sortN tmp inv1 pos1;
  at loop 4 begin: let ghost a0 = g_sortN in let ghost t0 = tmp in let ghost o0 = pure { getI g_sortN (digit 1099511627776 (getU64 rg4 ix4)) } in
     one_more post 1099511627776 ix4; below_all post 1099511627776 n1; below_le post 1099511627776 n1 (pure { digit 1099511627776 (getU64 rg4 ix4) }) 4096;
     cnt_le post 1099511627776 (pure { digit 1099511627776 (getU64 rg4 ix4) }) (ix4+1) n1; 
     assert { 0 <= o0 < lenU64 tmp };
  at loop 4 end: place post 1099511627776 a0 g_sortN t0 tmp inv1 pos1 ix4 o0; inv1 <- pure { set inv1 o0 ix4 }; pos1 <- pure { set pos1 ix4 o0 };
  at loop 4 after: u <- tmp; all_placed post 1099511627776 tmp inv1 pos1;
  at loop 8 before: let ghost n2 = plenU64 post in let ghost ref inv2 = any (map int int) in let ghost ref pos2 = any (map int int) in
     none u 4503599627370496 g_sortN post inv2 pos2;
  at loop 8 begin: let ghost b0 = g_sortN in let ghost s0 = post in let ghost q0 = pure { getI g_sortN (digit 4503599627370496 (getU64 rg8 ix8)) } in
     one_more u 4503599627370496 ix8; below_all u 4503599627370496 n2; below_le u 4503599627370496 n2 (pure { digit 4503599627370496 (getU64 rg8 ix8) }) 4096;
     cnt_le u 4503599627370496 (pure { digit 4503599627370496 (getU64 rg8 ix8) }) (ix8+1) n2;
     assert { 0 <= q0 < lenU64 post };
  at loop 8 end: place u 4503599627370496 b0 g_sortN s0 post inv2 pos2 ix8 q0; inv2 <- pure { set inv2 q0 ix8 }; pos2 <- pure { set pos2 ix8 q0 };
  at loop 8 after: all_placed u 4503599627370496 post inv2 pos2; passes post_in u post inv1 pos1 inv2 pos2;
    g_inv <- pure { comp inv1 inv2 }; g_pos <- pure { comp pos2 pos1 };
  at loop 2 begin: one_more post 1099511627776 ix2;
  at loop 3 begin: more post 1099511627776 (plenU64 post) i;
  at loop 6 begin: one_more u 4503599627370496 ix6;
  at loop 7 begin: more u 4503599627370496 (plenU64 u) i;
  loop 1
    invariant lenI g_sortN = 4096
    invariant forall r. 0 <= r < i -> getI g_sortN r = 0
  loop 2
    invariant lenI g_sortN = 4096
    invariant forall r. 0 <= r < 4096 -> getI g_sortN r = cnt post 1099511627776 r ix2
  loop 3
    invariant lenI g_sortN = 4096
    invariant tot = below post 1099511627776 (lenU64 post) i
    invariant forall r. 0 <= r < i -> getI g_sortN r = below post 1099511627776 (lenU64 post) r
    invariant forall r. i <= r < 4096 -> getI g_sortN r = cnt post 1099511627776 r (lenU64 post)
  loop 4
    invariant lenI g_sortN = 4096 /\ lenU64 tmp = lenU64 post
    invariant ranked post 1099511627776 g_sortN ix4
    invariant placed post 1099511627776 tmp inv1 pos1 ix4
  loop 5
    invariant lenI g_sortN = 4096
    invariant forall r. 0 <= r < i -> getI g_sortN r = 0
  loop 6
    invariant lenI g_sortN = 4096
    invariant forall r. 0 <= r < 4096 -> getI g_sortN r = cnt u 4503599627370496 r ix6
  loop 7
    invariant lenI g_sortN = 4096
    invariant tot = below u 4503599627370496 (lenU64 u) i
    invariant forall r. 0 <= r < i -> getI g_sortN r = below u 4503599627370496 (lenU64 u) r
    invariant forall r. i <= r < 4096 -> getI g_sortN r = cnt u 4503599627370496 r (lenU64 u)
  loop 8
    invariant lenI g_sortN = 4096 /\ lenU64 post = lenU64 u
    invariant ranked u 4503599627370496 g_sortN ix8
    invariant placed u 4503599627370496 post inv2 pos2 ix8
