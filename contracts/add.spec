# C06: what IndexWriter.add records.
include set.spec
include path.spec
unit add
package index
use []uint32 []byte index.Path []index.postEntry []index.Path
capped IndexWriter.inbuf IndexWriter.post index.(*IndexWriter).add.buf
drop IndexWriter.buf IndexWriter.roots IndexWriter.nameData IndexWriter.nameIndex IndexWriter.postFile IndexWriter.postEnds IndexWriter.postIndex IndexWriter.main
drop PathWriter.data PathWriter.index PathWriter.last
prefix IndexWriter ix_
prefix PathWriter pw_
global writeVersion ro int
global EOF ro int
opaque io.Reader int
extern log.Printf skip
extern log.Fatalf fatal
extern fmt.Errorf as=some_error args=
  val some_error () : int ensures { result <> 0 }
# the reader: it delivers bytes, zero of them with io.EOF at the end
extern (io.Reader).Read as=x_read inout=1 mod=g_delivered,g_eof
  val x_read (f: int) (ref p: seqB) : (int, int)
    writes { p, g_delivered, g_eof }
    ensures { let (n, err) = result in 0 <= n <= lenB p /\ lenB p = lenB (old p) /\
      g_delivered = catB (old g_delivered) (subB p 0 n) /\ (g_eof <-> n = 0 /\ err = g_EOF) }

why
  function triat (d: seqB) (i: int) : int
  axiom triat_def: forall d i [triat d i]. triat d i = 65536 * getB d i + 256 * getB d (i+1) + getB d (i+2)
  predicate newline_in (d: seqB) (i j: int)
  axiom newline_in_def: forall d i j [newline_in d i j]. newline_in d i j <-> exists k. i <= k < j /\ getB d k = 10
  predicate istri (d: seqB) (t: int) =
    exists i. 0 <= i /\ i + 2 < lenB d /\ t = triat d i
  predicate ascii (c: int) = 0 <= c < 128
  predicate cont (c: int) = 128 <= c < 192
  predicate lead (c: int) = 192 <= c < 248
  (* the byte pairs that occur in UTF-8 (of up to four bytes, overlong forms not looked at) *)
  predicate validpair (c d: int) =
    (ascii c /\ (ascii d \/ lead d)) \/ (cont c /\ (ascii d \/ cont d \/ lead d)) \/ (lead c /\ cont d)
  function prev (d: seqB) (i: int) : int = if i = 0 then 0 else getB d (i-1)
  predicate nozero (d: seqB) = forall i [getB d i]. 0 <= i < lenB d -> getB d i <> 0
  predicate pairs (d: seqB) = forall i [getB d i]. 0 <= i < lenB d -> validpair (prev d i) (getB d i)
  (* no line has more than 2000 bytes, its newline included *)
  predicate lines (d: seqB) = forall i [newline_in d i (i+2000)]. 0 <= i /\ i + 2000 < lenB d -> newline_in d i (i+2000)
  predicate text (d: seqB) = lenB d <= 1073741824 /\ nozero d /\ pairs d /\ lines d
  predicate distinctU (s: seqU32) = forall i j. 0 <= i < j < lenU32 s -> getU32 s i <> getU32 s j
  (* s lists the trigrams of d *)
  predicate lists (s: seqU32) (d: seqB) = distinctU s /\ forall t. memU s t <-> istri d t
  predicate good (d: seqB) = text d /\ exists s. lists s d /\ lenU32 s <= 20000
  (* entries es are the trigrams of d with file number id *)
  predicate distinctE (s: seqU64) = forall i j. 0 <= i < j < lenU64 s -> getU64 s i <> getU64 s j
  predicate memE (s: seqU64) (e: int) = exists i. 0 <= i < lenU64 s /\ getU64 s i = e
  predicate entries (es: seqU64) (d: seqB) (id: int) =
    distinctE es /\ forall e. memE es e <-> exists t. istri d t /\ e = 1099511627776 * t + id
  val ref g_delivered : seqB
  val ref g_eof : bool
  val ref g_flushed : seqU64  (* entries flushed to disk so far *)
  val ref g_names : seq_path_t  (* names written so far *)
  function posted (fl: seqU64) (p: capU64) : seqU64 = catU64 fl (plainU64 p)

  let rec ghost shorter (s t: seqU32) : unit
    requires { distinctU s /\ forall x. memU s x -> memU t x }
    ensures { lenU32 s <= lenU32 t }
    variant { lenU32 s }
  = let n = plenU32 s in
    if n > 0 then begin
      let x = idxU32 s (n-1) in
      assert { memU t x };
      let m = plenU32 t in
      let ref k = 0 in
      while idxU32 t k <> x do
        invariant { 0 <= k < m /\ exists i. k <= i < m /\ getU32 t i = x }
        variant { m - k }
        k <- k + 1
      done;
      let s2 = subU32 s 0 (n-1) in
      let t2 = subU32 (updU32 t k (getU32 t (m-1))) 0 (m-1) in
      assert { forall i. 0 <= i < n - 1 -> getU32 s2 i = getU32 s i };
      assert { forall i. 0 <= i < m - 1 -> getU32 t2 i = (if i = k then getU32 t (m-1) else getU32 t i) };
      assert { forall y. memU s2 y -> memU t2 y
        by memU s y /\ y <> x
        so exists i. 0 <= i < m /\ getU32 t i = y
        so i <> k so if i = m - 1 then getU32 t2 k = y else getU32 t2 i = y };
      shorter s2 t2
    end
  let ghost istri_step (d: seqB) (c: int) : unit
    requires { 0 <= c < 256 }
    ensures { let e = snocB d c in forall t. istri e t <-> (istri d t \/ (lenB d >= 2 /\ t = triat e (lenB d - 2))) }
  = let e = snocB d c in
    assert { forall i. 0 <= i < lenB d - 2 -> triat e i = triat d i };
    assert { forall t. istri d t -> istri e t };
    assert { forall t. istri e t -> istri d t \/ (lenB d >= 2 /\ t = triat e (lenB d - 2)) }
  (* however the file goes on, it is not text *)
  predicate hopeless (d: seqB) = forall e. not (good (catB d e))
  let ghost text_prefix (s: seqB) (n: int) : unit
    requires { 0 <= n <= lenB s }
    ensures { text s -> text (subB s 0 n) }
  = let p = subB s 0 n in
    assert { forall i. 0 <= i < n -> getB p i = getB s i };
    assert { pairs s -> pairs p };
    assert { forall i. 0 <= i < n - 2000 -> newline_in s i (i+2000) -> newline_in p i (i+2000) };
    assert { lines s -> lines p }
  let ghost give_up (d: seqB) (n: int) : unit
    requires { 0 <= n <= lenB d /\ not (text (subB d 0 n)) }
    ensures { hopeless d }
  = let lemma again (e: seqB) : unit
      ensures { not (good (catB d e)) }
    = text_prefix (catB d e) n;
      assert { eqB (subB (catB d e) 0 n) (subB d 0 n) };
      assert { subB (catB d e) 0 n = subB d 0 n }
    in ()
  function tvof (d: seqB) : int = let n = lenB d in
    (if n >= 3 then 65536 * getB d (n-3) else 0) + (if n >= 2 then 256 * getB d (n-2) else 0) + (if n >= 1 then getB d (n-1) else 0)
  let ghost tv_step (d: seqB) (c: int) : unit
    requires { 0 <= c < 256 }
    ensures { tvof (snocB d c) = mod (mod (tvof d * 256) 4294967296) 16777216 + c }
    ensures { mod (mod (mod (tvof d * 256) 4294967296) 16777216) 256 = 0 }
    ensures { 0 <= tvof d < 16777216 }
  = let n = lenB d in
    let e = snocB d c in
    let x = (if pure { n >= 3 } then getB d (n-3) else 0) in
    let y = 256 * ((if pure { n >= 2 } then 256 * getB d (n-2) else 0) + (if pure { n >= 1 } then getB d (n-1) else 0)) in
    assert { tvof d * 256 = 16777216 * x + y };
    assert { 0 <= y < 16777216 /\ 0 <= x < 256 };
    assert { tvof d * 256 < 4294967296 };
    assert { mod (tvof d * 256) 4294967296 = tvof d * 256 };
    assert { mod (tvof d * 256) 16777216 = y };
    assert { mod y 256 = 0 };
    assert { tvof e = y + c };
    assert { tvof d = 65536 * x + div y 256 }
  predicate linestart (d: seqB) (l: int) = 0 <= l <= lenB d /\ (forall k [getB d k]. lenB d - l <= k < lenB d -> getB d k <> 10) /\
    (l < lenB d -> getB d (lenB d - l - 1) = 10)
  (* one more byte c after d, whose last line has l bytes so far *)
  let ghost step (d: seqB) (l c: int) : unit
    requires { text d /\ linestart d l /\ l <= 2000 /\ 0 <= c < 256 }
    ensures { let e = snocB d c in text e <-> (c <> 0 /\ validpair (prev e (lenB d)) c /\ lenB e <= 1073741824 /\ l + 1 <= 2000) }
  = let e = snocB d c in let n = lenB d in
    assert { forall i. 0 <= i < n -> getB e i = getB d i };
    assert { nozero e <-> c <> 0 };
    assert { pairs e <-> validpair (prev e n) c };
    assert { forall i. 0 <= i < n - 2000 -> newline_in d i (i+2000) -> newline_in e i (i+2000) };
    assert { l < 2000 -> n >= 2000 -> newline_in e (n-2000) n by getB e (n - l - 1) = 10 };
    assert { l + 1 <= 2000 -> lines e };
    assert { l = 2000 -> not (newline_in e (n-2000) (n-2000+2000)) }
  (* what add appends to the posting entries *)
  predicate recorded (fl0 fl: seqU64) (d: seqB) (id: int) =
    lenU64 fl0 <= lenU64 fl /\ (forall j [getU64 fl j]. 0 <= j < lenU64 fl0 -> getU64 fl j = getU64 fl0 j) /\
    entries (subU64 fl (lenU64 fl0) (lenU64 fl)) d id
endwhy

func index.validUTF8
  requires 0 <= c1 < 256 /\ 0 <= c2 < 256
  ensures [exactly the byte pairs possible in UTF-8] res0 <-> validpair c1 c2

func index.makePostEntry
  requires 0 <= trigram < 16777216 /\ 0 <= fileid
  ensures [trigram in the high bits, file number in the low] res0 = 1099511627776 * trigram + fileid /\ fileid < 1099511627776

func index.(*PathWriter).Write trusted
  writes w, g_names
  ensures g_names = snoc_path_t (old g_names) p

func index.(*IndexWriter).flushPost trusted
  writes ix, g_flushed
  ensures g_flushed = posted (old g_flushed) (old ix).ix_post
  ensures ix.ix_post.cU64_n = 0

func index.(*IndexWriter).addName
  writes g_names
  requires ix.ix_numName = len_path_t g_names /\ ix.ix_numName < 4611686018427387904
  ensures [a name takes the next number] res0 = (old ix).ix_numName /\ g_names = snoc_path_t (old g_names) name
  ensures ix.ix_numName = len_path_t g_names

func index.(*IndexWriter).add
  writes g_names
  requires wf ix.ix_trigram /\ capacity ix.ix_trigram = 16777216
  requires g_delivered = emptyB /\ not g_eof
  requires ix.ix_numName = len_path_t g_names /\ ix.ix_numName < 4611686018427387904 /\ 0 <= ix.ix_totalBytes < 4611686018427387904
  at loop 1 before: assert { buf.cB_n = 0 }; assert { eqB (subB g_delivered 0 0) emptyB }
  at loop 1 begin: let ghost pd = subB g_delivered 0 n in let ghost ll = linelen in tv_step pd 0
  at call Read#1 after: assert { eqB (subB g_delivered 0 (lenB pd)) pd }
  at return 3: assert { eqB (subB g_delivered 0 n) (snocB pd c) }; step pd ll c; give_up g_delivered n
  at return 4: assert { eqB (subB g_delivered 0 n) (snocB pd c) }; step pd ll c; give_up g_delivered n
  at return 5: assert { eqB (subB g_delivered 0 n) (snocB pd c) }; step pd ll c; give_up g_delivered n
  at return 6: assert { eqB (subB g_delivered 0 n) (snocB pd c) }; step pd ll c; give_up g_delivered n
  at loop 1 end: assert { eqB (subB g_delivered 0 n) (snocB pd c) }; step pd ll c; istri_step pd c; tv_step pd c
  at loop 1 after: assert { g_eof /\ lenB g_delivered = n }; assert { eqB (subB g_delivered 0 n) g_delivered }
  at return 7: let lemma all (s: seqU32) : unit ensures { lists s g_delivered -> lenU32 s > 20000 }
      = if pure { lists s g_delivered } then shorter ix.ix_trigram.set_dense s in ()
  at return 8: assert { lists ix.ix_trigram.set_dense g_delivered };
      let ghost dl = ix.ix_trigram.set_dense in let ghost fl0 = pure { posted (old g_flushed) (old ix).ix_post } in let ghost fl = pure { posted g_flushed ix.ix_post } in
      let ghost es = subU64 fl (lenU64 fl0) (lenU64 fl) in
      assert { lenU64 es = lenU32 dl /\ forall j. 0 <= j < lenU64 es -> getU64 es j = 1099511627776 * getU32 dl j + fileid };
      assert { distinctE es };
      assert { forall e. memE es e -> exists t. istri g_delivered t /\ e = 1099511627776 * t + fileid
         by exists j. 0 <= j < lenU32 dl /\ e = 1099511627776 * getU32 dl j + fileid so memU dl (getU32 dl j) };
      let lemma has (t: int) : unit ensures { istri g_delivered t -> memE es (1099511627776 * t + fileid) }
      = if pure { istri g_delivered t } then assert { exists j. 0 <= j < lenU32 dl /\ getU32 dl j = t } in ()
  loop 1
    noterm
    invariant not g_eof
    invariant 0 <= i <= buf.cB_n <= lenB buf.cB_a
    invariant 0 <= n /\ lenB g_delivered = n + buf.cB_n - i
    invariant forall j [getB buf.cB_a j]. i <= j < buf.cB_n -> getB buf.cB_a j = getB g_delivered (n + j - i)
    invariant text (subB g_delivered 0 n)
    invariant tv = tvof (subB g_delivered 0 n)
    invariant 0 <= linelen <= 2000 /\ linestart (subB g_delivered 0 n) linelen
    invariant wf ix.ix_trigram /\ capacity ix.ix_trigram = 16777216
    invariant forall t. mem ix.ix_trigram t <-> istri (subB g_delivered 0 n) t
  loop 2
    invariant ix.ix_numName = len_path_t g_names
    invariant lenU64 (posted g_flushed ix.ix_post) = lenU64 (posted (old g_flushed) (old ix).ix_post) + ix2
    invariant forall j. 0 <= j < lenU64 (posted (old g_flushed) (old ix).ix_post) ->
      getU64 (posted g_flushed ix.ix_post) j = getU64 (posted (old g_flushed) (old ix).ix_post) j
    invariant forall j. 0 <= j < ix2 ->
      getU64 (posted g_flushed ix.ix_post) (lenU64 (posted (old g_flushed) (old ix).ix_post) + j) = 1099511627776 * getU32 rg2 j + fileid
  ensures wf ix.ix_trigram /\ capacity ix.ix_trigram = 16777216 /\ ix.ix_numName = len_path_t g_names
  ensures [recorded under the next number with exactly its trigrams, or not at all]
    if g_names = old g_names then posted g_flushed ix.ix_post = posted (old g_flushed) (old ix).ix_post
    else g_names = snoc_path_t (old g_names) { path_s = name } /\
      recorded (posted (old g_flushed) (old ix).ix_post) (posted g_flushed ix.ix_post) g_delivered (old ix).ix_numName
  ensures [recorded only when it is text] g_names <> old g_names -> res0 = 0 /\ g_eof /\ good g_delivered
  ensures [passed over only when it is not text] g_names = old g_names /\ res0 = 0 -> (if g_eof then not (good g_delivered) else hopeless g_delivered)
