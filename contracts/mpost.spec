# C07: flushing the postings held in memory, and merging the flushed runs with them.
unit mpost
package index
include sort.spec
include heap.spec
use []index.postEntry []int index.IndexWriter index.postDataWriter index.Buffer
drop IndexWriter.trigram IndexWriter.roots IndexWriter.inbuf
heap PathWriter
heap Buffer
prefix Buffer bf_
prefix IndexWriter iw_
prefix postDataWriter pw_
opaque os.File int
extern log.Printf skip
global writeVersion ro int

why
  (* what is written to the lists, as a log of entries: trigram g_tri is open, or none (-1); g_end: the end mark is written *)
  val ghost ref g_log : seqU64
  val ghost ref g_tri : int
  val ghost ref g_top : int
  val ghost ref g_end : bool
  predicate inlog (s: seqU64) (x: int)
  function logat (s: seqU64) (x: int) : int
  axiom inlog_in: forall s i [getU64 s i]. 0 <= i < lenU64 s -> inlog s (getU64 s i)
  axiom inlog_at: forall s x [inlog s x]. inlog s x -> 0 <= logat s x < lenU64 s /\ getU64 s (logat s x) = x
  predicate rising (s: seqU64) = forall i j. 0 <= i < j < lenU64 s -> getU64 s i < getU64 s j
  predicate entry (x: int) = 1099511627776 <= x < 18446742974197923840   (* trigram and file number; all below the end mark *)
  (* the entries are added file by file, none twice *)
  predicate posted (s: seqU64) = lenU64 s < 0x1000000000000000 /\ (forall i. 0 <= i < lenU64 s -> entry (getU64 s i)) /\
    (forall i j. 0 <= i < j < lenU64 s -> mod (getU64 s i) 1099511627776 <= mod (getU64 s j) 1099511627776 /\ getU64 s i <> getU64 s j)
  let ghost sorted_rising (s t: seqU64) (inv pos: map int int) : unit
    requires { sorted_from s t inv pos /\ posted s }
    ensures { rising t } ensures { forall i. 0 <= i < lenU64 t -> entry (getU64 t i) } ensures { forall x. inlog t x <-> inlog s x }
  = let lemma lt (p q: int) : unit requires { 0 <= p < q < lenU64 t } ensures { getU64 t p < getU64 t q }
      = let a = pure { getU64 t p } in let b = pure { getU64 t q } in
        assert { a = 1099511627776 * tri a + mod a 1099511627776 /\ b = 1099511627776 * tri b + mod b 1099511627776 };
        assert { 0 <= mod a 1099511627776 < 1099511627776 /\ 0 <= mod b 1099511627776 < 1099511627776 };
        if tri a = tri b then assert { get inv p < get inv q /\ a = getU64 s (get inv p) /\ b = getU64 s (get inv q) } else () in
    let lemma fwd (i: int) : unit requires { 0 <= i < lenU64 s } ensures { inlog t (getU64 s i) } = assert { getU64 t (get pos i) = getU64 s i } in
    let lemma bwd (i: int) : unit requires { 0 <= i < lenU64 t } ensures { inlog s (getU64 t i) } = assert { getU64 s (get inv i) = getU64 t i } in
    assert { forall x. inlog s x -> inlog t x }; assert { forall x. inlog t x -> inlog s x }
  let ghost snoc_log (s: seqU64) (x: int) : unit
    requires { 0 <= x <= 0xffffffffffffffff /\ (forall y. inlog s y -> y < x) /\ rising s }
    ensures { rising (snocU64 s x) /\ forall y. inlog (snocU64 s x) y <-> inlog s y \/ y = x }
  = let t = snocU64 s x in assert { lenU64 t = lenU64 s + 1 /\ getU64 t (lenU64 s) = x };
    assert { forall i. 0 <= i < lenU64 s -> getU64 t i = getU64 s i };
    assert { inlog t x };
    assert { forall i. 0 <= i < lenU64 s -> getU64 s i < x };
    let lemma fwd (y: int) : unit requires { inlog s y } ensures { inlog t y } = assert { getU64 t (logat s y) = y } in
    let lemma bwd (y: int) : unit requires { inlog t y } ensures { inlog s y \/ y = x } = assert { getU64 t (logat t y) = y } in
    ()
  let ghost parts (p: int) : unit
    requires { entry p }
    ensures { 0 < tri p < 16777215 /\ 0 <= mod p 1099511627776 < 1099511627776 /\ p = 1099511627776 * tri p + mod p 1099511627776 }
    ensures { div (mod (p * 16777216) 18446744073709551616) 16777216 = mod p 1099511627776 }
  = let q = div p 1099511627776 in let r = mod p 1099511627776 in
    assert { p = 1099511627776 * q + r /\ 0 <= r < 1099511627776 };
    assert { p * 16777216 = 18446744073709551616 * q + r * 16777216 /\ 0 <= r * 16777216 < 18446744073709551616 };
    assert { mod (p * 16777216) 18446744073709551616 = r * 16777216 }
  predicate onfile (x: int)   (* the entries flushed to the file of runs *)
  (* while merging: entry e is next; what is smaller is in the log, what is bigger in the heap *)
  predicate onward (h: map int postChunk_t) (c: seqP) (ps: map int int) (l s: seqU64) (e: int) =
    (e = 18446742974197923840 \/ entry e) /\
    (forall x. inheap h c ps x -> e < x < 18446742974197923840) /\ (forall x. inlog l x -> x < e) /\
    (forall x. onfile x \/ inlog s x <-> inlog l x \/ inheap h c ps x \/ x = e /\ e <> 18446742974197923840)
endwhy
extern index.(*Buffer).Offset args=
  val x_index_Buffer_Offset () : int ensures { 0 <= result }
extern index.(*postDataWriter).init args=0 inout=0 mod=g_log,g_tri,g_top,g_end
  val x_index_postDataWriter_init (ref w: postDataWriter_t) : unit
    writes { w, g_log, g_tri, g_top, g_end }
    ensures { g_log = emptyU64 /\ g_tri = -1 /\ g_top = 0 /\ not g_end }
extern index.(*postDataWriter).trigram args=0,1 inout=0 mod=g_tri,g_top
  val x_index_postDataWriter_trigram (ref w: postDataWriter_t) (t: int) : unit
    requires { [@expl:lists are written in trigram order] g_tri = -1 /\ g_top < t < 16777216 }
    writes { w, g_tri, g_top }
    ensures { g_tri = t /\ g_top = t }
extern index.(*postDataWriter).fileid args=0,1 inout=0 mod=g_log
  val x_index_postDataWriter_fileid (ref w: postDataWriter_t) (id: int) : unit
    requires { [@expl:files are added to the open list in increasing order] 0 < g_tri < 16777215 /\ 0 <= id < 1099511627776 /\ forall x. inlog g_log x -> x < 1099511627776 * g_tri + id }
    writes { w, g_log }
    ensures { g_log = snocU64 (old g_log) (1099511627776 * g_tri + id) }
extern index.(*postDataWriter).endTrigram args=0 inout=0 mod=g_tri,g_end
  val x_index_postDataWriter_endTrigram (ref w: postDataWriter_t) : unit
    requires { [@expl:a list is open] g_tri >= 0 }
    writes { w, g_tri, g_end }
    ensures { g_tri = -1 /\ (g_end <-> old g_end \/ old g_tri = 16777215) }
extern index.(*postDataWriter).flush args=0 inout=0
  val x_index_postDataWriter_flush (ref w: postDataWriter_t) : unit
    writes { w }
extern index.(*postHeap).addFile args=0 inout=0 heap=postChunk mod=g_at
  val x_index_postHeap_addFile (ref h: postHeap_t) : unit
    requires { good h_postChunk_t alloc_postChunk_t h.ph_ch g_at /\ lenP h.ph_ch = 0 }
    writes { h, h_postChunk_t, alloc_postChunk_t, g_at }
    ensures { good h_postChunk_t alloc_postChunk_t h.ph_ch g_at /\ lenP h.ph_ch < 0x800000000000000 /\ alloc_postChunk_t >= 0 }
    ensures { forall x. inheap h_postChunk_t h.ph_ch g_at x <-> onfile x }
extern index.(*postHeap).addMem args=0,1 inout=0 heap=postChunk mod=g_at
  val x_index_postHeap_addMem (ref h: postHeap_t) (x: seqU64) : unit
    requires { good h_postChunk_t alloc_postChunk_t h.ph_ch g_at /\ lenP h.ph_ch < 0x1000000000000000 - 1 }
    requires { [@expl:the run is sorted] rising x }
    requires { forall e. inlog x e -> not (inheap h_postChunk_t h.ph_ch g_at e) }
    writes { h, h_postChunk_t, alloc_postChunk_t, g_at }
    ensures { good h_postChunk_t alloc_postChunk_t h.ph_ch g_at }
    ensures { forall e. inheap h_postChunk_t h.ph_ch g_at e <-> inheap (old h_postChunk_t) (old h).ph_ch (old g_at) e \/ inlog x e }

func index.(*IndexWriter).flushPost
  writes g_log, g_tri, g_top, g_end, g_inv, g_pos
  requires posted ix.iw_post /\ lenI g_sortN = 4096
  ensures [the run has exactly the entries that were in memory, in order] rising g_log /\ forall x. inlog g_log x <-> inlog (old ix).iw_post x
  ensures [the memory is empty, the run's end is recorded] lenU64 ix.iw_post = 0 /\ lenI ix.iw_postEnds = lenI (old ix).iw_postEnds + 1
  ensures [every list is closed] g_tri = -1
  at call sortPost#1 after: sorted_rising (pure { (old ix).iw_post }) ix.iw_post g_inv g_pos; let ghost s0 = ix.iw_post in
  at loop 1 begin: let ghost p0 = pure { getU64 s0 ix1 } in parts p0; assert { forall j. 0 <= j < ix1 -> getU64 s0 j < p0 }; assert { forall y. inlog g_log y -> y < p0 }; assert { trigram <> 16777215 -> tri (getU64 s0 (ix1 - 1)) = trigram /\ trigram <= tri p0 };
    let ghost l0 = pure { g_log } in
  at loop 1 end: assert { g_log = snocU64 l0 p0 }; snoc_log l0 p0;
  loop 1
    invariant if trigram = 16777215 then g_tri = -1 /\ g_top = 0 /\ ix1 = 0 else g_tri = trigram /\ g_top = trigram /\ 0 < trigram < 16777215
    invariant trigram <> 16777215 -> ix1 > 0 /\ tri (getU64 s0 (ix1 - 1)) = trigram
    invariant ix.iw_post = s0
    invariant lenU64 g_log = ix1 /\ forall j. 0 <= j < ix1 -> getU64 g_log j = getU64 s0 j
    invariant rising g_log
  at loop 1 after: assert { eqU64 g_log s0 }; assert { g_log = s0 };

func index.(*IndexWriter).mergePost
  writes g_log, g_tri, g_top, g_end, g_inv, g_pos, g_at, h_postChunk_t, alloc_postChunk_t
  requires posted ix.iw_post /\ lenI g_sortN = 4096 /\ alloc_postChunk_t >= 0
  requires forall x. onfile x -> entry x /\ not (inlog ix.iw_post x)
  requires lenI ix.iw_postEnds = 0 -> forall x. not (onfile x)
  ensures [the lists have exactly the entries in memory and on file] forall x. inlog g_log x <-> onfile x \/ inlog (old ix).iw_post x
  ensures [in order, once each] rising g_log
  ensures [the lists end with the end mark] g_end /\ g_tri = -1
  at call sortPost#1 after: sorted_rising (pure { (old ix).iw_post }) ix.iw_post g_inv g_pos;
  at call addMem#1 before: assert { forall x. inheap h_postChunk_t h.ph_ch g_at x <-> onfile x };
  at call addMem#1 after: let ghost s0 = pure { (old ix).iw_post } in assert { forall x. inheap h_postChunk_t h.ph_ch g_at x <-> onfile x \/ inlog s0 x }; assert { forall x. inlog s0 x -> entry x };
  at loop 1 before: assert { onward h_postChunk_t h.ph_ch g_at g_log s0 e };
  loop 1
    invariant good h_postChunk_t alloc_postChunk_t h.ph_ch g_at /\ onward h_postChunk_t h.ph_ch g_at g_log s0 e
    invariant rising g_log /\ g_tri = -1 /\ not g_end /\ 0 <= g_top < tri e
    variant 16777216 - g_top
  at loop 2 begin: let ghost e0 = e in parts e0; let ghost l0 = pure { g_log } in snoc_log l0 e0; let ghost h0 = h_postChunk_t in let ghost c0 = h.ph_ch in let ghost at0 = pure { g_at } in
  at loop 2 end: assert { g_log = snocU64 l0 e0 }; assert { forall y. inlog g_log y <-> inlog l0 y \/ y = e0 };
  loop 2
    invariant good h_postChunk_t alloc_postChunk_t h.ph_ch g_at /\ onward h_postChunk_t h.ph_ch g_at g_log s0 e
    invariant rising g_log /\ g_tri = t /\ g_top = t /\ not g_end /\ t <= tri e
    variant 18446742974197923840 - e
