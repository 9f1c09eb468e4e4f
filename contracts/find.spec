# C04: the posting index, where a trigram's list is looked up.
include delta.spec
unit find
package index
use index.Index index.mmapData []int
drop Index.name Index.Verbose
nilable []int
extern (binary.bigEndian).Uint32 args=1
  val x_binary_bigEndian_Uint32 (b: seqB) : int
    requires { lenB b >= 4 }
    ensures { 0 <= result < 4294967296 /\ be32 result = subB b 0 4 }
extern (binary.bigEndian).Uint64 args=1
  val x_binary_bigEndian_Uint64 (b: seqB) : int
    requires { lenB b >= 8 }
    ensures { 0 <= result < 18446744073709551616 /\ be64 result = subB b 0 8 }

why Layout
  predicate increasing (s: seqI) = forall i j [getI s i, getI s j]. 0 <= i < j < lenI s -> getI s i < getI s j
  (* the entry of trigram t in a version 2 posting index: count c, and d more than the place of the entry before *)
  function bent (t c d: int) : seqB = catB (be24 t) (catB (uvenc c) (uvenc d))
  (* the entries lo, ..., k-1 in one block *)
  function benc (ts cs os: seqI) (lo k: int) : seqB
  function bdelta (os: seqI) (lo k: int) : int = getI os k - (if k = lo then 0 else getI os (k-1))
  axiom benc_lo: forall ts cs os lo [benc ts cs os lo lo]. benc ts cs os lo lo = emptyB
  axiom benc_k: forall ts cs os lo k [benc ts cs os lo (k+1)]. lo <= k -> benc ts cs os lo (k+1) = catB (benc ts cs os lo k) (bent (getI ts k) (getI cs k) (bdelta os lo k))
  (* the number in three bytes *)
  function num3 (d: seqB) (i: int) : int = 65536 * getB d i + 256 * getB d (i+1) + getB d (i+2)
  (* a list of entries: trigrams, counts and places *)
  predicate entries (ts cs os: seqI) = lenI cs = lenI ts /\ lenI os = lenI ts /\ increasing ts /\
    (forall i [getI ts i]. 0 <= i < lenI ts -> i < getI ts i < 16777216) /\
    (forall i [getI cs i]. 0 <= i < lenI ts -> 0 <= getI cs i < 4611686018427387904) /\
    (forall i [getI os i]. 0 <= i < lenI ts -> 0 <= getI os i < 4611686018427387904) /\
    (forall i j [getI os i, getI os j]. 0 <= i <= j < lenI ts -> getI os i <= getI os j)
  predicate prefixB (p s: seqB) = lenB p <= lenB s /\ subB s 0 (lenB p) = p
  (* block b holds the entries lo, ..., hi-1, and zeros *)
  predicate blockis (b: seqB) (ts cs os: seqI) (lo hi: int) = lenB b = 256 /\ prefixB (benc ts cs os lo hi) b /\
    forall i [getB b i]. lenB (benc ts cs os lo hi) <= i < 256 -> getB b i = 0
  (* a version 2 posting index of nb blocks, of which the j'th begins with entry st(j) *)
  predicate layout2 (d: seqB) (nb: int) (ts cs os st: seqI) = entries ts cs os /\ 0 <= nb /\ lenB d = 256 * nb /\ lenI st = nb + 1 /\ increasing st /\
    getI st 0 = 0 /\ getI st nb = lenI ts /\
    forall j [getI st j]. 0 <= j < nb -> blockis (subB d (256 * j) (256 * j + 256)) ts cs os (getI st j) (getI st (j+1))
  (* a version 1 posting index *)
  function fent (t c o: int) : seqB = catB (be24 t) (catB (be32 c) (be32 o))
  predicate layout1 (d: seqB) (ts cs os: seqI) = entries ts cs os /\ lenB d = 11 * lenI ts /\
    forall k [getI ts k]. 0 <= k < lenI ts -> getI cs k < 4294967296 /\ getI os k < 4294967296 /\ subB d (11 * k) (11 * k + 11) = fent (getI ts k) (getI cs k) (getI os k)
  let ghost benc_unfold (ts cs os: seqI) (lo k: int) : unit
    requires { lo <= k } ensures { benc ts cs os lo (k+1) = catB (benc ts cs os lo k) (bent (getI ts k) (getI cs k) (bdelta os lo k)) }
  = ()
  let rec ghost benc_pre (ts cs os: seqI) (lo k hi: int) : unit
    requires { lo <= k <= hi } ensures { prefixB (benc ts cs os lo k) (benc ts cs os lo hi) } variant { hi - k }
  = if k < hi then begin benc_pre ts cs os lo (k+1) hi; let p = pure { benc ts cs os lo k } in let q = pure { benc ts cs os lo (k+1) } in let r = pure { benc ts cs os lo hi } in
      assert { q = catB p (bent (getI ts k) (getI cs k) (bdelta os lo k)) };
      assert { forall i. 0 <= i < lenB p -> getB r i = getB q i by getB (subB r 0 (lenB q)) i = getB r i };
      assert { eqB (subB r 0 (lenB p)) p } end
    else assert { eqB (subB (benc ts cs os lo hi) 0 (lenB (benc ts cs os lo hi))) (benc ts cs os lo hi) }
  (* entry k of the block, where a reader that has passed the entries before it finds it *)
  let ghost block_next (b: seqB) (ts cs os: seqI) (lo k hi: int) : unit
    requires { blockis b ts cs os lo hi /\ lo <= k < hi }
    ensures { let n = lenB (benc ts cs os lo k) in let e = bent (getI ts k) (getI cs k) (bdelta os lo k) in
      n + lenB e <= 256 /\ subB b n (n + lenB e) = e /\ lenB (benc ts cs os lo (k+1)) = n + lenB e }
  = benc_pre ts cs os lo (k+1) hi;
    let p = pure { benc ts cs os lo k } in let q = pure { benc ts cs os lo (k+1) } in let r = pure { benc ts cs os lo hi } in let e = pure { bent (getI ts k) (getI cs k) (bdelta os lo k) } in
    assert { q = catB p e };
    assert { forall i. 0 <= i < lenB e -> getB b (lenB p + i) = getB e i by getB r (lenB p + i) = getB (subB b 0 (lenB r)) (lenB p + i) /\ getB q (lenB p + i) = getB (subB r 0 (lenB q)) (lenB p + i) };
    assert { eqB (subB b (lenB p) (lenB p + lenB e)) e }
  let ghost num3_of (d: seqB) (i t: int) (r: seqB) : unit
    requires { 0 <= t < 16777216 /\ 0 <= i /\ i + 3 + lenB r <= lenB d /\ subB d i (i + 3 + lenB r) = catB (be24 t) r }
    ensures { num3 d i = t }
  = assert { getB d i = getB (subB d i (i + 3 + lenB r)) 0 /\ getB d (i+1) = getB (subB d i (i + 3 + lenB r)) 1 /\ getB d (i+2) = getB (subB d i (i + 3 + lenB r)) 2 };
    assert { getB d i = div t 65536 /\ getB d (i+1) = mod (div t 256) 256 /\ getB d (i+2) = mod t 256 };
    assert { div (div t 256) 256 = div t 65536 }
  let ghost be32_inj (x y: int) : unit
    requires { be32 x = be32 y /\ 0 <= x < 4294967296 /\ 0 <= y < 4294967296 } ensures { x = y }
  = assert { getB (be32 x) 0 = div x 16777216 /\ getB (be32 x) 1 = mod (div x 65536) 256 /\ getB (be32 x) 2 = mod (div x 256) 256 /\ getB (be32 x) 3 = mod x 256 }
  let rec ghost firsts2 (d: seqB) (nb: int) (ts cs os st: seqI) (j: int) : unit
    requires { layout2 d nb ts cs os st /\ 0 <= j <= nb }
    ensures { forall i [getI st i]. 0 <= i < j -> num3 d (256 * i) = getI ts (getI st i) } variant { j }
  = if j > 0 then begin firsts2 d nb ts cs os st (j-1); let lo = pure { getI st (j-1) } in let hi = pure { getI st (j-1+1) } in
      let b = pure { subB d (256 * (j-1)) (256 * (j-1) + 256) } in
      assert { 0 <= lo < hi <= lenI ts by (lo = 0 \/ getI st 0 < lo) /\ (j = nb \/ hi < getI st nb) };
      block_next b ts cs os lo lo hi;
      assert { benc ts cs os lo lo = emptyB };
      num3_of b 0 (pure { getI ts lo }) (pure { catB (uvenc (getI cs lo)) (uvenc (bdelta os lo lo)) });
      assert { getB d (256 * (j-1)) = getB b 0 /\ getB d (256 * (j-1) + 1) = getB b 1 /\ getB d (256 * (j-1) + 2) = getB b 2 } end
  let rec ghost firsts1 (d: seqB) (ts cs os: seqI) (j: int) : unit
    requires { layout1 d ts cs os /\ 0 <= j <= lenI ts }
    ensures { forall i [getI ts i]. 0 <= i < j -> num3 d (11 * i) = getI ts i } variant { j }
  = if j > 0 then begin firsts1 d ts cs os (j-1);
      num3_of d (11 * (j-1)) (pure { getI ts (j-1) }) (pure { catB (be32 (getI cs (j-1))) (be32 (getI os (j-1))) }) end
  (* the posting index of ix *)
  function xts (ix: int) : seqI
  function xcs (ix: int) : seqI
  function xos (ix: int) : seqI
  function xst (ix: int) : seqI
  predicate findable (ix: int) = let x = dr_index_t ix in let d = x.ix_data.md_d in ix <> 0 /\ (x.ix_version = 1 \/ x.ix_version = 2) /\
    lenB d < 4611686018427387904 /\ 0 <= x.ix_postIndex <= lenB d /\
    if x.ix_version = 2 then 0 <= x.ix_numPostBlock /\ x.ix_postIndex + 256 * x.ix_numPostBlock <= lenB d /\
      layout2 (subB d x.ix_postIndex (x.ix_postIndex + 256 * x.ix_numPostBlock)) x.ix_numPostBlock (xts ix) (xcs ix) (xos ix) (xst ix)
    else x.ix_numPost = lenI (xts ix) /\ x.ix_postIndex + 11 * x.ix_numPost <= lenB d /\
      layout1 (subB d x.ix_postIndex (x.ix_postIndex + 11 * x.ix_numPost)) (xts ix) (xcs ix) (xos ix)
  (* what is recorded for trigram t: nothing, or count c at place o *)
  predicate recorded (ts cs os: seqI) (t c o: int) = exists k. 0 <= k < lenI ts /\ getI ts k = t /\ c = getI cs k /\ o = getI os k
  predicate unrecorded (ts: seqI) (t: int) = forall k [getI ts k]. 0 <= k < lenI ts -> getI ts k <> t
endwhy

func index.(*Index).slice
  requires ix <> 0 /\ let d = (dr_index_t ix).ix_data.md_d in 0 <= off <= lenB d /\ lenB d < 4611686018427387904 /\ (n >= 0 -> off + n <= lenB d)
  ensures [those bytes] let d = (dr_index_t ix).ix_data.md_d in res0 = subB d off (if n < 0 then lenB d else off + n)

func index.(*Index).findListV2 use=Layout
  requires findable ix /\ (dr_index_t ix).ix_version = 2 /\ 0 <= trigram < 16777216
  at entry: let ghost ts = pure { xts ix } in let ghost cs = pure { xcs ix } in let ghost os = pure { xos ix } in let ghost st = pure { xst ix } in let ghost nb = (dr_index_t ix).ix_numPostBlock in let ghost ref k = 0 in
  at call slice#1 after: firsts2 b nb ts cs os st nb
  search 1 getI ts (getI st i) > trigram
  at loop 1 before: let ghost lo = pure { getI st (i-1) } in let ghost hi = pure { getI st (i-1+1) } in let ghost blk = b in
    assert { not (getI ts lo > trigram) };
    assert { 0 <= lo < hi <= lenI ts by (lo = 0 \/ getI st 0 < lo) /\ (i = nb \/ hi < getI st nb) };
    assert { blockis blk ts cs os lo hi }; assert { benc ts cs os lo lo = emptyB }; assert { eqB blk (subB blk 0 256) }; k <- lo;
    assert { i < nb -> getI ts hi > trigram }; assert { i = nb -> hi = lenI ts };
    assert { forall j. 0 <= j < lo -> getI ts j < getI ts lo }; assert { i < nb -> forall j. hi <= j < lenI ts -> getI ts hi <= getI ts j };
  loop 1
    invariant lo <= k <= hi /\ b = subB blk (lenB (benc ts cs os lo k)) 256 /\ lenB (benc ts cs os lo k) <= 256
    invariant offset = (if k = lo then 0 else getI os (k-1))
    invariant forall j [getI ts j]. lo <= j < k -> getI ts j <> trigram
  at loop 1 begin: if k < hi then begin block_next blk ts cs os lo k hi;
      let c = pure { uvenc (getI cs k) } in let o = pure { uvenc (bdelta os lo k) } in let n = pure { lenB (benc ts cs os lo k) } in
      assert { forall j. 0 <= j < 3 + lenB c + lenB o -> getB b j = getB (bent (getI ts k) (getI cs k) (bdelta os lo k)) j by getB b j = getB (subB blk n (n + 3 + lenB c + lenB o)) j };
      assert { eqB (subB b 0 (3 + lenB (catB c o))) (bent (getI ts k) (getI cs k) (bdelta os lo k)) };
      num3_of b 0 (pure { getI ts k }) (pure { catB c o }); assert { num3 b 0 = getI ts k };
      assert { isprefix c (subB b 3 (lenB b)) }; assert { isprefix o (subB b (3 + lenB c) (lenB b)) } end
    else begin assert { lenB b >= 3 -> getB b 0 = 0 /\ getB b 1 = 0 /\ getB b 2 = 0 } end
  at loop 1 end: assert { k < hi }; k <- k + 1; assert { eqB b (subB blk (lenB (benc ts cs os lo k)) 256) }
  at loop 1 after: if k < hi then begin block_next blk ts cs os lo k hi; assert { lenB (bent (getI ts k) (getI cs k) (bdelta os lo k)) >= 3 } end; assert { k = hi }
  ensures [a recorded trigram is found] recorded (xts ix) (xcs ix) (xos ix) trigram count offset \/ (unrecorded (xts ix) trigram /\ count = 0 /\ offset = 0)

func index.(*Index).postIndexEntry use=Layout
  requires findable ix /\ (dr_index_t ix).ix_version = 1 /\ 0 <= i < lenI (xts ix)
  at entry: let ghost ts = pure { xts ix } in let ghost cs = pure { xcs ix } in let ghost os = pure { xos ix } in
    let ghost e = pure { fent (getI ts i) (getI cs i) (getI os i) } in let ghost d0 = pure { subB (dr_index_t ix).ix_data.md_d (dr_index_t ix).ix_postIndex ((dr_index_t ix).ix_postIndex + 11 * (dr_index_t ix).ix_numPost) } in
    assert { subB d0 (11 * i) (11 * i + 11) = e };
    assert { eqB (subB (dr_index_t ix).ix_data.md_d ((dr_index_t ix).ix_postIndex + 11 * i) ((dr_index_t ix).ix_postIndex + 11 * i + 11)) e };
    assert { eqB (subB e 0 11) e }; num3_of e 0 (pure { getI ts i }) (pure { catB (be32 (getI cs i)) (be32 (getI os i)) });
    assert { eqB (subB e 3 7) (be32 (getI cs i)) }; assert { eqB (subB e 7 11) (be32 (getI os i)) };
  at call slice#1 after: assert { d = e }; assert { num3 d 0 = getI ts i }; assert { eqB (subB (subB d 3 (lenB d)) 0 4) (subB e 3 7) }; assert { eqB (subB (subB d 7 (lenB d)) 0 4) (subB e 7 11) };
  at return 1: assert { be32 count = be32 (getI cs i) }; be32_inj count (pure { getI cs i }); be32_inj offset (pure { getI os i })
  ensures [the entry there] trigram = getI (xts ix) i /\ count = getI (xcs ix) i /\ offset = getI (xos ix) i

func index.(*Index).findList use=Layout
  requires findable ix /\ 0 <= trigram < 16777216
  at entry: let ghost ts = pure { xts ix } in let ghost cs = pure { xcs ix } in let ghost os = pure { xos ix } in
  at call slice#1 after: firsts1 d ts cs os (pure { lenI ts })
  search 1 getI ts i >= trigram
  ensures [a recorded trigram is found] recorded (xts ix) (xcs ix) (xos ix) trigram count offset \/ (unrecorded (xts ix) trigram /\ count = 0 /\ offset = 0)
