# C07: the heap that merges sorted runs of postings.
unit heap
package index
use []index.postEntry []int index.postChunk index.postHeap
heap postChunk
prefix postChunk pc_
prefix postHeap ph_

extern log.Fatalf fatal
why
  use map.Map
  (* a run is read through a function value f: the entries lst f, of which g_at f have been read *)
  function lst (f: int) : seqU64
  val ref g_at : map int int
  predicate runs (f: int) = forall i j. 0 <= i < j < lenU64 (lst f) -> getU64 (lst f) i < getU64 (lst f) j
  (* pointer x is in the list; it is there at place c x *)
  predicate has (c: seqP) (x: int)
  function place (c: seqP) (x: int) : int
  axiom has_in: forall c i [getP c i]. 0 <= i < lenP c -> has c (getP c i)
  axiom has_at: forall c x [has c x]. has c x -> 0 <= place c x < lenP c /\ getP c (place c x) = x
  (* entry x of run f is number rank f x *)
  function rank (f x: int) : int
  axiom rank_of: forall f i [getU64 (lst f) i]. runs f -> 0 <= i < lenU64 (lst f) -> rank f (getU64 (lst f) i) = i
  predicate nz (c: seqP) = forall k [getP c k]. 0 <= k < lenP c -> getP c k <> 0
  predicate dist (c: seqP) = forall i j. 0 <= i < j < lenP c -> getP c i <> getP c j
  predicate ord (h: map int postChunk_t) (c: seqP) = forall p [getP c p]. 1 <= p < lenP c -> (get h (getP c (div (p-1) 2))).pc_e <= (get h (getP c p)).pc_e
  (* in order but for the entry ps i, which may be too big; but for the entry ps j, which may be too small *)
  predicate ordD (h: map int postChunk_t) (c: seqP) (i: int) =
    (forall p [getP c p]. 1 <= p < lenP c -> div (p-1) 2 <> i -> (get h (getP c (div (p-1) 2))).pc_e <= (get h (getP c p)).pc_e) /\
    (i > 0 -> forall p [getP c p]. 1 <= p < lenP c -> div (p-1) 2 = i -> (get h (getP c (div (i-1) 2))).pc_e <= (get h (getP c p)).pc_e)
  predicate ordU (h: map int postChunk_t) (c: seqP) (j: int) =
    (forall p [getP c p]. 1 <= p < lenP c -> p <> j -> (get h (getP c (div (p-1) 2))).pc_e <= (get h (getP c p)).pc_e) /\
    (j > 0 -> forall p [getP c p]. 1 <= p < lenP c -> div (p-1) 2 = j -> (get h (getP c (div (j-1) 2))).pc_e <= (get h (getP c p)).pc_e)
  predicate same (c d: seqP) = lenP c = lenP d /\ (dist c -> dist d) /\ (nz c -> nz d) /\ forall x. has c x <-> has d x
  let ghost swapped (b c d: seqP) (i j: int) : unit
    requires { same b c /\ 0 <= i < lenP c /\ 0 <= j < lenP c /\ lenP d = lenP c /\ getP d i = getP c j /\ getP d j = getP c i }
    requires { forall k. 0 <= k < lenP c -> k <> i -> k <> j -> getP d k = getP c k }
    ensures { same b d }
  = let lemma fwd (k: int) : unit requires { 0 <= k < lenP c } ensures { has d (getP c k) } = assert { getP d (if k = i then j else if k = j then i else k) = getP c k } in
    let lemma bwd (k: int) : unit requires { 0 <= k < lenP c } ensures { has c (getP d k) } = assert { getP c (if k = i then j else if k = j then i else k) = getP d k } in
    assert { forall x. has c x -> has d x }; assert { forall x. has d x -> has c x };
    assert { dist c -> dist d }; assert { nz c -> nz d };
    assert { dist b -> dist d }; assert { nz b -> nz d }; assert { forall x. has b x -> has d x };  assert { forall x. has d x -> has b x }
  let ghost sunk (h: map int postChunk_t) (c d: seqP) (i j: int) : unit
    requires { ordD h c i /\ 0 <= i < j < lenP c /\ div (j-1) 2 = i /\ lenP d = lenP c /\ getP d i = getP c j /\ getP d j = getP c i }
    requires { forall k. 0 <= k < lenP c -> k <> i -> k <> j -> getP d k = getP c k }
    requires { forall p. 1 <= p < lenP c -> div (p-1) 2 = i -> (get h (getP c j)).pc_e <= (get h (getP c p)).pc_e }
    requires { (get h (getP c j)).pc_e <= (get h (getP c i)).pc_e }
    ensures { ordD h d j }
  = let lemma up (p: int) : unit requires { 1 <= p < lenP d /\ div (p-1) 2 <> j } ensures { (get h (getP d (div (p-1) 2))).pc_e <= (get h (getP d p)).pc_e }
      = let q = div (p-1) 2 in
        assert { 0 <= q < p };
        if p = j then assert { getP d q = getP c j /\ getP d p = getP c i }
        else if p = i then assert { getP d q = getP c q /\ getP d p = getP c j }
        else if q = i then assert { getP d q = getP c j /\ getP d p = getP c p }
        else assert { getP d q = getP c q /\ getP d p = getP c p } in
    let lemma grand (p: int) : unit requires { 1 <= p < lenP d /\ div (p-1) 2 = j } ensures { (get h (getP d (div (j-1) 2))).pc_e <= (get h (getP d p)).pc_e }
      = assert { getP d i = getP c j /\ getP d p = getP c p }; assert { j <> i /\ p <> i };
        assert { (get h (getP c j)).pc_e <= (get h (getP c p)).pc_e } in ()
  let rec ghost least (h: map int postChunk_t) (c: seqP) (p: int) : unit
    requires { ord h c /\ 0 <= p < lenP c } ensures { (get h (getP c 0)).pc_e <= (get h (getP c p)).pc_e } variant { p }
  = if p > 0 then begin let q = div (p-1) 2 in assert { 0 <= q < p }; least h c q; assert { (get h (getP c q)).pc_e <= (get h (getP c p)).pc_e } end

  (* chunk p: its entry is the last one read from its run; what is left of it, that entry included *)
  predicate chunk (h: map int postChunk_t) (ps: map int int) (p: int) = let f = (get h p).pc_next in
    runs f /\ 1 <= get ps f <= lenU64 (lst f) /\ (get h p).pc_e = getU64 (lst f) (get ps f - 1)
  predicate left (h: map int postChunk_t) (ps: map int int) (p x: int)
  axiom left_def: forall h ps p x [left h ps p x]. left h ps p x <-> let f = (get h p).pc_next in
    get ps f - 1 <= rank f x < lenU64 (lst f) /\ getU64 (lst f) (rank f x) = x
  predicate apart (h: map int postChunk_t) (c: seqP) (ps: map int int) =
    (forall p q. has c p -> has c q -> p <> q -> (get h p).pc_next <> (get h q).pc_next) /\
    (forall p q x. has c p -> has c q -> p <> q -> left h ps p x -> not (left h ps q x))
  predicate good (h: map int postChunk_t) (al: int) (c: seqP) (ps: map int int) =
    lenP c < 0x1000000000000000 /\ dist c /\ nz c /\ ord h c /\
    (forall p. has c p -> 0 < p <= al /\ chunk h ps p) /\
    apart h c ps
  (* what the heap still has to deliver *)
  predicate inheap (h: map int postChunk_t) (c: seqP) (ps: map int int) (x: int)
  function owner (h: map int postChunk_t) (c: seqP) (ps: map int int) (x: int) : int
  axiom inheap_in: forall h c ps p x [has c p, left h ps p x]. has c p -> left h ps p x -> inheap h c ps x
  axiom inheap_at: forall h c ps x [inheap h c ps x]. inheap h c ps x -> let p = owner h c ps x in has c p /\ left h ps p x
  let ghost smallest (h: map int postChunk_t) (al: int) (c: seqP) (ps: map int int) : unit
    requires { good h al c ps /\ lenP c > 0 }
    ensures { inheap h c ps (get h (getP c 0)).pc_e /\ forall x. inheap h c ps x -> (get h (getP c 0)).pc_e <= x }
  = let p0 = pure { getP c 0 } in let e = pure { (get h p0).pc_e } in
    assert { has c p0 }; assert { chunk h ps p0 }; assert { left h ps p0 e };
    let lemma bound (p x k: int) : unit requires { has c p /\ get ps (get h p).pc_next - 1 <= k < lenU64 (lst (get h p).pc_next) /\ getU64 (lst (get h p).pc_next) k = x } ensures { e <= x }
      = assert { chunk h ps p }; assert { has c p };
        assert { (get h p).pc_e <= x };
        let lemma lo (i: int) : unit requires { 0 <= i < lenP c } ensures { e <= (get h (getP c i)).pc_e } = least h c i in assert { e <= (get h p).pc_e } in
    ()
  (* the first chunk gives up one entry, or its only one *)
  let ghost stepped (h0: map int postChunk_t) (c: seqP) (at0: map int int) (h1: map int postChunk_t) (d: seqP) (at1: map int int) (p0: int) : unit
    requires { has c p0 /\ chunk h0 at0 p0 /\ apart h0 c at0 /\ (forall p. has c p -> chunk h0 at0 p) /\ (forall p. has d p <-> has c p) }
    requires { get at0 (get h0 p0).pc_next < lenU64 (lst (get h0 p0).pc_next) }
    requires { at1 = set at0 (get h0 p0).pc_next (get at0 (get h0 p0).pc_next + 1) }
    requires { h1 = set h0 p0 { pc_e = getU64 (lst (get h0 p0).pc_next) (get at0 (get h0 p0).pc_next); pc_next = (get h0 p0).pc_next } }
    ensures { forall x. inheap h1 d at1 x <-> inheap h0 c at0 x /\ x <> (get h0 p0).pc_e }
    ensures { (forall p. has d p -> chunk h1 at1 p) /\ apart h1 d at1 }
  = let f = pure { (get h0 p0).pc_next } in let n = pure { get at0 f } in let e = pure { (get h0 p0).pc_e } in
    assert { left h0 at0 p0 e };
    assert { (get h1 p0).pc_next = f /\ get at1 f = n + 1 };
    let lemma frame (p: int) : unit requires { has c p /\ p <> p0 } ensures { get h1 p = get h0 p /\ get at1 (get h0 p).pc_next = get at0 (get h0 p).pc_next }
      = () in
    let lemma sl (p x: int) : unit requires { has c p /\ p <> p0 } ensures { left h1 at1 p x <-> left h0 at0 p x } = frame p in
    let lemma fl (x k: int) : unit requires { n - 1 <= k < lenU64 (lst f) /\ getU64 (lst f) k = x /\ x <> e } ensures { left h1 at1 p0 x } = assert { n <= k } in
    let lemma fr (x k: int) : unit requires { n <= k < lenU64 (lst f) /\ getU64 (lst f) k = x } ensures { left h0 at0 p0 x /\ x <> e } = assert { n - 1 <= k } in
    let lemma ll (p x: int) : unit requires { has c p /\ left h1 at1 p x } ensures { left h0 at0 p x /\ x <> e }
      = if p <> p0 then sl p x in
    let lemma lr (p x: int) : unit requires { has c p /\ left h0 at0 p x /\ x <> e } ensures { left h1 at1 p x }
      = if p <> p0 then sl p x in
    assert { forall p. has c p -> (get h1 p).pc_next = (get h0 p).pc_next };
    assert { forall p. has c p -> chunk h1 at1 p };
    assert { forall x. inheap h1 d at1 x -> inheap h0 c at0 x /\ x <> e };
    assert { forall x. inheap h0 c at0 x /\ x <> e -> inheap h1 d at1 x }
  let ghost stopped (h0: map int postChunk_t) (c: seqP) (at0: map int int) (d: seqP) (p0: int) : unit
    requires { has c p0 /\ chunk h0 at0 p0 /\ apart h0 c at0 /\ (forall p. has d p <-> has c p /\ p <> p0) }
    requires { get at0 (get h0 p0).pc_next >= lenU64 (lst (get h0 p0).pc_next) }
    ensures { forall x. inheap h0 d at0 x <-> inheap h0 c at0 x /\ x <> (get h0 p0).pc_e }
    ensures { apart h0 d at0 }
  = let e = pure { (get h0 p0).pc_e } in
    assert { left h0 at0 p0 e };
    assert { forall x. left h0 at0 p0 x -> x = e };
    assert { forall x. inheap h0 d at0 x -> inheap h0 c at0 x /\ x <> e };
    assert { forall x. inheap h0 c at0 x /\ x <> e -> inheap h0 d at0 x }
  let ghost joined (h0: map int postChunk_t) (c: seqP) (at0: map int int) (h1: map int postChunk_t) (d: seqP) (at1: map int int) (p0 f: int) : unit
    requires { not (has c p0) /\ apart h0 c at0 /\ (forall p. has c p -> chunk h0 at0 p) /\ (forall p. has d p <-> has c p \/ p = p0) }
    requires { runs f /\ lenU64 (lst f) > 0 /\ get at0 f = 0 /\ at1 = set at0 f 1 /\ h1 = set h0 p0 { pc_e = getU64 (lst f) 0; pc_next = f } }
    requires { forall p. has c p -> (get h0 p).pc_next <> f }
    requires { forall p k. has c p -> 0 <= k < lenU64 (lst f) -> not (left h0 at0 p (getU64 (lst f) k)) }
    ensures { forall x. inheap h1 d at1 x <-> inheap h0 c at0 x \/ exists k. 0 <= k < lenU64 (lst f) /\ getU64 (lst f) k = x }
    ensures { (forall p. has d p -> chunk h1 at1 p) /\ apart h1 d at1 }
  = let lemma frame (p: int) : unit requires { has c p } ensures { get h1 p = get h0 p /\ get at1 (get h0 p).pc_next = get at0 (get h0 p).pc_next /\ p <> p0 } = () in
    let lemma sl (p x: int) : unit requires { has c p } ensures { left h1 at1 p x <-> left h0 at0 p x } = frame p in
    let lemma fl (x: int) : unit ensures { left h1 at1 p0 x <-> 0 <= rank f x < lenU64 (lst f) /\ getU64 (lst f) (rank f x) = x } = () in
    assert { forall k. 0 <= k < lenU64 (lst f) -> left h1 at1 p0 (getU64 (lst f) k) };
    assert { forall p. has c p -> chunk h1 at1 p };
    assert { chunk h1 at1 p0 };
    let lemma dj (p x: int) : unit requires { has c p /\ left h1 at1 p x } ensures { not (left h1 at1 p0 x) }
      = sl p x; fl x; assert { not (left h0 at0 p (getU64 (lst f) (rank f x))) \/ not (0 <= rank f x < lenU64 (lst f)) } in
    assert { apart h1 d at1 };
    let lemma ih0 (x: int) : unit requires { inheap h1 d at1 x } ensures { inheap h0 c at0 x \/ exists k. 0 <= k < lenU64 (lst f) /\ getU64 (lst f) k = x }
      = let p = pure { owner h1 d at1 x } in if p = p0 then fl x else begin assert { has c p }; sl p x end in
    let lemma ih1 (x: int) : unit requires { inheap h0 c at0 x } ensures { inheap h1 d at1 x }
      = let p = pure { owner h0 c at0 x } in assert { has c p }; sl p x; assert { has d p } in
    assert { has d p0 }
endwhy
extern funcvar:next fn as=x_next mod=g_at
  val x_next (f: int) : (int, bool)
    writes { g_at }
    ensures { let (e, ok) = result in let n = get (old g_at) f in
      if n < lenU64 (lst f) then ok /\ e = getU64 (lst f) n /\ g_at = set (old g_at) f (n + 1) else not ok /\ g_at = old g_at }

func index.makePostEntry
  requires 0 <= trigram < 16777216 /\ 0 <= fileid
  ensures [trigram in the high bits, file number in the low] res0 = 1099511627776 * trigram + fileid /\ fileid < 1099511627776
func index.(*postHeap).siftDown
  requires 0 <= i < lenP h.ph_ch < 0x1000000000000000 /\ nz h.ph_ch /\ ordD h_postChunk_t h.ph_ch i
  ensures [the smallest entry is at the top] ord h_postChunk_t h.ph_ch
  ensures [no run is lost or duplicated] same (old h).ph_ch h.ph_ch
  at loop 1 begin: let ghost c0 = h.ph_ch in let ghost i0 = i in
  at loop 1 end: swapped h_in.ph_ch c0 h.ph_ch i0 i; sunk h_postChunk_t c0 h.ph_ch i0 i;
  loop 1
    invariant 0 <= i < lenP h.ph_ch
    invariant same h_in.ph_ch h.ph_ch /\ nz h.ph_ch
    invariant ordD h_postChunk_t h.ph_ch i
    variant lenP h.ph_ch - i
func index.(*postHeap).siftUp
  requires 0 <= j < lenP h.ph_ch < 0x1000000000000000 /\ nz h.ph_ch /\ ordU h_postChunk_t h.ph_ch j
  ensures [the smallest entry is at the top] ord h_postChunk_t h.ph_ch
  ensures [no run is lost or duplicated] same (old h).ph_ch h.ph_ch
  at loop 1 begin: let ghost c0 = h.ph_ch in let ghost j0 = j in
  at loop 1 end: swapped h_in.ph_ch c0 h.ph_ch j0 j;
  loop 1
    invariant 0 <= j < lenP h.ph_ch
    invariant same h_in.ph_ch h.ph_ch /\ nz h.ph_ch
    invariant ordU h_postChunk_t h.ph_ch j
    variant j
func index.(*postHeap).push
  requires lenP h.ph_ch < 0x1000000000000000 - 1 /\ ord h_postChunk_t h.ph_ch /\ dist h.ph_ch /\ nz h.ph_ch /\ ch <> 0 /\ not (has h.ph_ch ch)
  ensures [the smallest entry is at the top] ord h_postChunk_t h.ph_ch
  ensures [the run is added] lenP h.ph_ch = lenP (old h).ph_ch + 1 /\ dist h.ph_ch /\ nz h.ph_ch /\ forall x. has h.ph_ch x <-> has (old h).ph_ch x \/ x = ch
func index.(*postHeap).pop
  requires 0 < lenP h.ph_ch < 0x1000000000000000 /\ ord h_postChunk_t h.ph_ch /\ dist h.ph_ch /\ nz h.ph_ch
  ensures [the smallest entry is at the top] ord h_postChunk_t h.ph_ch
  ensures [the top run is removed] res0 = getP (old h).ph_ch 0 /\ lenP h.ph_ch = lenP (old h).ph_ch - 1 /\ dist h.ph_ch /\ nz h.ph_ch /\ forall x. has h.ph_ch x <-> has (old h).ph_ch x /\ x <> res0
func index.(*postHeap).next
  at call next#1 before: smallest h_postChunk_t alloc_postChunk_t h.ph_ch g_at; let ghost c0 = h.ph_ch in let ghost h0 = h_postChunk_t in let ghost at0 = g_at in let ghost p0 = pure { getP c0 0 } in let ghost f0 = pure { (get h0 p0).pc_next } in
    assert { has c0 p0 }; assert { chunk h0 at0 p0 };
  at call pop#1 after: stopped h0 c0 at0 h.ph_ch p0;
  at call siftDown#1 after: stepped h0 c0 at0 h_postChunk_t h.ph_ch g_at p0;
  requires good h_postChunk_t alloc_postChunk_t h.ph_ch g_at
  ensures good h_postChunk_t alloc_postChunk_t h.ph_ch g_at
  ensures [an empty heap delivers the end mark] lenP (old h).ph_ch = 0 -> res0 = 18446742974197923840 /\ lenP h.ph_ch = 0
  ensures [the smallest remaining entry] lenP (old h).ph_ch > 0 -> inheap (old h_postChunk_t) (old h).ph_ch (old g_at) res0 /\ forall x. inheap (old h_postChunk_t) (old h).ph_ch (old g_at) x -> res0 <= x
  ensures [exactly that entry is removed] lenP (old h).ph_ch > 0 -> forall x. inheap h_postChunk_t h.ph_ch g_at x <-> inheap (old h_postChunk_t) (old h).ph_ch (old g_at) x /\ x <> res0
func index.(*postHeap).add
  at entry: let ghost c0 = h.ph_ch in let ghost h0 = h_postChunk_t in let ghost at0 = g_at in
  at call push#1 after: joined h0 c0 at0 h_postChunk_t h.ph_ch g_at (alloc_postChunk_t) next;
  requires good h_postChunk_t alloc_postChunk_t h.ph_ch g_at /\ lenP h.ph_ch < 0x1000000000000000 - 1 /\ alloc_postChunk_t >= 0
  requires runs next /\ get g_at next = 0
  requires forall p. has h.ph_ch p -> (get h_postChunk_t p).pc_next <> next
  requires forall p k. has h.ph_ch p -> 0 <= k < lenU64 (lst next) -> not (left h_postChunk_t g_at p (getU64 (lst next) k))
  ensures good h_postChunk_t alloc_postChunk_t h.ph_ch g_at
  ensures [the entries of the run are added] forall x. inheap h_postChunk_t h.ph_ch g_at x <-> inheap (old h_postChunk_t) (old h).ph_ch (old g_at) x \/ exists k. 0 <= k < lenU64 (lst next) /\ getU64 (lst next) k = x
