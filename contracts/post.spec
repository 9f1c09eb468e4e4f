# C02: looking up trigrams and evaluating queries.
include find.spec
unit post
package index
use index.postReader index.Query
prefix postReader po_
prefix Query q_
const Query

why Lists uses RoundTrip Layout
  (* membership *)
  predicate memI (x: int) (s: seqI)
  function whereI (x: int) (s: seqI) : int
  axiom memI_at: forall s i [getI s i]. 0 <= i < lenI s -> memI (getI s i) s
  axiom memI_where: forall x s [memI x s]. memI x s -> 0 <= whereI x s < lenI s /\ getI s (whereI x s) = x
  (* the version 1 codes of xs(k), ..., xs(n-1) *)
  function encs (xs: int -> int) (k n: int) : seqB
  axiom encs_n: forall xs n [encs xs n n]. encs xs n n = emptyB
  axiom encs_k: forall xs k n [encs xs k n, uvenc (xs k)]. k < n -> encs xs k n = catB (uvenc (xs k)) (encs xs (k+1) n)
  (* z is the list of the n numbers xs in the posting lists of a version v index *)
  predicate codes (v: int) (xs: int -> int) (n: int) (z: seqB) =
    if v = 2 then le z = nv xs n /\ 8 * lenB z - 8 < nl xs n <= 8 * lenB z else z = encs xs 0 n
  (* reader r stands at number k of the n numbers coded in z, which tl follows *)
  predicate gapsat (v: int) (r: deltaReader_t) (xs: int -> int) (k n: int) (z tl: seqB) =
    rok r /\ r.dr_ix <> 0 /\ (dr_index_t r.dr_ix).ix_version = v /\ 0 <= k <= n /\ inrange xs n /\ codes v xs n z /\
    if v = 2 then standing r (catB z tl) xs k else r.dr_d = catB (encs xs k n) tl /\ r.dr_nb = 0 /\ r.dr_b = 0
  let ghost gaps_start (v: int) (r: deltaReader_t) (xs: int -> int) (n: int) (z tl: seqB) : unit
    requires { r.dr_ix <> 0 /\ (dr_index_t r.dr_ix).ix_version = v /\ 0 <= n /\ inrange xs n /\ codes v xs n z }
    requires { r.dr_d = catB z tl /\ r.dr_b = 0 /\ r.dr_nb = 0 } ensures { gapsat v r xs 0 n z tl }
  = assert { pow2 0 = 1 }; standing_start r (catB z tl) xs
  (* what next needs *)
  let ghost gaps_next (v: int) (r: deltaReader_t) (xs: int -> int) (k n: int) (z tl: seqB) : int
    requires { gapsat v r xs k n z tl /\ k < n }
    ensures { 0 <= xs k < 9223372036854775807 /\ rok r }
    ensures { if v = 2 then upcoming r (renum (xs k)) result else isprefix (uvenc (xs k)) r.dr_d }
  = if v = 2 then standing_next r z tl xs k n else begin
      let e = pure { uvenc (xs k) } in assert { encs xs k n = catB e (encs xs (k+1) n) }; 0 end
  let ghost gaps_step (v: int) (r r2: deltaReader_t) (xs: int -> int) (k n: int) (z tl: seqB) (gv: int) : unit
    requires { gapsat v r xs k n z tl /\ k < n /\ rok r2 /\ r2.dr_ix = r.dr_ix }
    requires { if v = 2 then upcoming r (renum (xs k)) gv else isprefix (uvenc (xs k)) r.dr_d }
    requires { if v = 2 then rval r2 = gv /\ rlen r2 + glen (renum (xs k)) = rlen r /\ lenB r2.dr_d <= lenB r.dr_d /\
      r2.dr_d = subB r.dr_d (lenB r.dr_d - lenB r2.dr_d) (lenB r.dr_d)
      else r2.dr_d = subB r.dr_d (lenB (uvenc (xs k))) (lenB r.dr_d) /\ r2.dr_b = r.dr_b /\ r2.dr_nb = r.dr_nb }
    ensures { gapsat v r2 xs (k+1) n z tl }
  = if v = 2 then standing_step r r2 (catB z tl) xs k gv else begin
      let e = pure { uvenc (xs k) } in assert { encs xs k n = catB e (encs xs (k+1) n) };
      assert { eqB r2.dr_d (catB (encs xs (k+1) n) tl) } end
  let ghost gaps_end (v: int) (r: deltaReader_t) (xs: int -> int) (n: int) (z tl: seqB) : unit
    requires { gapsat v r xs n n z tl } ensures { r.dr_d = tl }
  = if v = 2 then standing_end r z tl xs n else begin assert { encs xs n n = emptyB }; assert { eqB (catB emptyB tl) tl } end
  (* the gaps of a list of file numbers, and the zero that ends it *)
  function gaps (s: seqI) : int -> int
  axiom gaps_def: forall s k [gaps s k]. gaps s k = if 0 <= k < lenI s then getI s k - (if k = 0 then -1 else getI s (k-1)) else 0
  (* what index ix records for trigram t: the file numbers, and where and how they are stored *)
  function plist (ix t: int) : seqI
  function pplace (ix t: int) : int
  function pz (ix t: int) : seqB
  function ptl (ix t: int) : seqB
  predicate fileids (s: seqI) (n: int) = increasing s /\ forall i [getI s i]. 0 <= i < lenI s -> 0 <= getI s i < n
  predicate stored (ix t: int) = let x = dr_index_t ix in let s = plist ix t in
    fileids s x.ix_numName /\ (lenI s > 0 -> 0 <= pplace ix t /\ x.ix_postData + pplace ix t + 3 <= lenB x.ix_data.md_d /\
      subB x.ix_data.md_d (x.ix_postData + pplace ix t + 3) (lenB x.ix_data.md_d) = catB (pz ix t) (ptl ix t) /\
      codes x.ix_version (gaps s) (lenI s + 1) (pz ix t))
  (* the posting index names every list *)
  predicate named (ix: int) = findable ix /\ forall t [plist ix t]. 0 <= t < 16777216 ->
    recorded (xts ix) (xcs ix) (xos ix) t (lenI (plist ix t)) (pplace ix t) \/ (unrecorded (xts ix) t /\ lenI (plist ix t) = 0)
  predicate ixok (ix: int) = let x = dr_index_t ix in named ix /\ ix <> 0 /\ (x.ix_version = 1 \/ x.ix_version = 2) /\ 0 <= x.ix_postData /\
    0 <= x.ix_numName < 4611686018427387904 /\ lenB x.ix_data.md_d < 4611686018427387904 /\ forall t [plist ix t]. stored ix t
  (* a restriction to list s, if there is one *)
  predicate allowed (s: seqI) (f: int) = nnI s -> memI f s
  (* reader r stands before file k of the list of t, or at its end *)
  predicate listat (r: postReader_t) (ix t: int) (k: int) = let s = plist ix t in
    ixok ix /\ 0 <= k <= lenI s /\ r.po_count = lenI s - k /\
    if lenI s = 0 then r.po_ix = 0 else r.po_ix = ix /\ r.po_fileid = (if k = 0 then -1 else getI s (k-1)) /\
      r.po_delta.dr_ix = ix /\ gapsat (dr_index_t ix).ix_version r.po_delta (gaps s) k (lenI s + 1) (pz ix t) (ptl ix t)
  let rec ghost ids_apart (s: seqI) (n k: int) : unit
    requires { fileids s n /\ 0 <= k < lenI s } ensures { k <= getI s k } variant { k }
  = if k > 0 then ids_apart s n (k-1)
  let ghost ids_fit (s: seqI) (n: int) : unit
    requires { fileids s n /\ 0 <= n } ensures { lenI s <= n }
  = let k = plenI s in if k > 0 then ids_apart s n (k-1)
  let ghost gaps_range (s: seqI) (n: int) : unit
    requires { fileids s n /\ 0 <= n < 4611686018427387904 } ensures { inrange (gaps s) (lenI s + 1) } = ()
  predicate int64 (v: int) = -9223372036854775808 <= v <= 9223372036854775807
  let ghost mem_snoc (s: seqI) (v: int) : unit
    requires { int64 v } ensures { forall f [memI f (snocI s v)]. memI f (snocI s v) <-> memI f s \/ f = v }
    ensures { increasing s /\ (forall i [getI s i]. 0 <= i < lenI s -> getI s i < v) -> increasing (snocI s v) }
  = assert { forall f. memI f s -> getI (snocI s v) (whereI f s) = f }; assert { getI (snocI s v) (lenI s) = v }
  let ghost put_at (s: seqI) (n v: int) : unit
    requires { int64 v /\ 0 <= n < lenI s }
    ensures { let z = updI s n v in subI z 0 (n+1) = snocI (subI s 0 n) v /\ forall j [getI z j]. 0 <= j < lenI s /\ j <> n -> getI z j = getI s j }
  = assert { eqI (subI (updI s n v) 0 (n+1)) (snocI (subI s 0 n) v) }
  let ghost mem_upto (s: seqI) (i: int) : unit
    requires { 0 <= i < lenI s } ensures { subI s 0 (i+1) = snocI (subI s 0 i) (getI s i) }
    ensures { forall f [memI f (subI s 0 (i+1))]. memI f (subI s 0 (i+1)) <-> memI f (subI s 0 i) \/ f = getI s i }
  = assert { eqI (subI s 0 (i+1)) (snocI (subI s 0 i) (getI s i)) }; mem_snoc (pure { subI s 0 i }) (idxI s i)
  let ghost mem_cat (s t: seqI) : unit
    ensures { forall f [memI f (catI s t)]. memI f (catI s t) <-> memI f s \/ memI f t }
  = assert { forall f. memI f s -> getI (catI s t) (whereI f s) = f }; assert { forall f. memI f t -> getI (catI s t) (lenI s + whereI f t) = f }
  let ghost mem_sub (s: seqI) (i j: int) : unit
    requires { 0 <= i <= j <= lenI s }
    ensures { forall f [memI f (subI s i j)]. memI f (subI s i j) -> memI f s /\ exists k. i <= k < j /\ getI s k = f }
    ensures { forall k [getI s k]. i <= k < j -> memI (getI s k) (subI s i j) }
  = assert { forall f. memI f (subI s i j) -> getI s (i + whereI f (subI s i j)) = f }
  let rec ghost mem_first (s: seqI) (k: int) : unit
    requires { 0 <= k <= lenI s /\ forall j [getI s j]. 0 <= j < lenI s -> getI s j = j }
    ensures { forall f [memI f s]. 0 <= f < k -> memI f s } variant { k }
  = if k > 0 then begin mem_first s (k-1); assert { getI s (k-1) = k-1 } end
  let ghost mem_all (s: seqI) : unit
    requires { forall j [getI s j]. 0 <= j < lenI s -> getI s j = j } ensures { forall f [memI f s]. memI f s <-> 0 <= f < lenI s }
  = mem_first s (plenI s)
  (* all of s below all of t *)
  predicate belowI (s t: seqI) = forall i j [getI s i, getI t j]. 0 <= i < lenI s -> 0 <= j < lenI t -> getI s i < getI t j
  (* what a query means *)
  function trigram (s: seqB) : int = 65536 * getB s 0 + 256 * getB s 1 + getB s 2
  predicate hastri (ix: int) (t: seqB) (f: int) = memI f (plist ix (trigram t))
  predicate satisfies (ix q f: int)
  axiom sat_all: forall ix q f [satisfies ix q f]. (dr_query_t q).q_Op = 0 -> (satisfies ix q f <-> 0 <= f < (dr_index_t ix).ix_numName)
  axiom sat_none: forall ix q f [satisfies ix q f]. (dr_query_t q).q_Op = 1 -> not satisfies ix q f
  axiom sat_and: forall ix q f [satisfies ix q f]. (dr_query_t q).q_Op = 2 -> let ts = (dr_query_t q).q_Trigram in let qs = (dr_query_t q).q_Sub in
    satisfies ix q f <-> (forall i [getS ts i]. 0 <= i < lenS ts -> hastri ix (getS ts i) f) /\ (forall i [getP qs i]. 0 <= i < lenP qs -> satisfies ix (getP qs i) f)
  axiom sat_or: forall ix q f [satisfies ix q f]. (dr_query_t q).q_Op = 3 -> let ts = (dr_query_t q).q_Trigram in let qs = (dr_query_t q).q_Sub in
    satisfies ix q f <-> (exists i. 0 <= i < lenS ts /\ hastri ix (getS ts i) f) \/ (exists i. 0 <= i < lenP qs /\ satisfies ix (getP qs i) f)
  (* a query tree of depth at most d *)
  predicate isquery (q d: int)
  axiom isquery_def: forall q d [isquery q d]. isquery q d -> let x = dr_query_t q in q <> 0 /\ d > 0 /\ 0 <= x.q_Op <= 3 /\
    (x.q_Op >= 2 -> lenS x.q_Trigram + lenP x.q_Sub > 0) /\
    (forall i [getS x.q_Trigram i]. 0 <= i < lenS x.q_Trigram -> lenB (getS x.q_Trigram i) >= 3) /\
    (forall i [getP x.q_Sub i]. 0 <= i < lenP x.q_Sub -> isquery (getP x.q_Sub i) (d-1))
  predicate below_num (ix: int) (s: seqI) = forall i [getI s i]. 0 <= i < lenI s -> 0 <= getI s i < (dr_index_t ix).ix_numName
  (* how many files of the list have been read *)
  function at_ (r: postReader_t) (ix t: int) : int = lenI (plist ix t) - r.po_count
endwhy

func index.(*postReader).init use=RoundTrip,Layout,Lists
  requires ixok ix /\ 0 <= trigram < 16777216
  requires r.po_ix = 0 /\ r.po_count = 0 /\ not (nnI r.po_restrict)
  at entry: assert { stored ix trigram }; gaps_range (pure { plist ix trigram }) (pure { (dr_index_t ix).ix_numName })
  at exit: gaps_start (pure { (dr_index_t ix).ix_version }) r.po_delta (pure { gaps (plist ix trigram) }) (pure { lenI (plist ix trigram) + 1 }) (pure { pz ix trigram }) (pure { ptl ix trigram })
  ensures [at the start of the list] listat r ix trigram 0
  ensures if lenI (plist ix trigram) > 0 then r.po_restrict = restrict else r = old r

func index.(*postReader).max use=RoundTrip,Layout,Lists
  ensures [the number of files] res0 = r.po_count

func index.(*postReader).next use=RoundTrip,Layout,Lists
  ghostparam (ghost ix: int) (ghost t: int)
  requires listat r ix t (at_ r ix t) /\ increasing r.po_restrict
  at entry: let ghost r0 = r in let ghost s = pure { plist ix t } in let ghost k0 = at_ r ix t in let ghost v = (dr_index_t ix).ix_version in
    let ghost ref k = k0 in let ghost ref rb = r in assert { stored ix t }
  loop 1
    variant r.po_count
    invariant k = at_ r ix t /\ k0 <= k /\ listat r ix t k /\ r.po_ix = ix
    invariant increasing r.po_restrict /\ (nnI r.po_restrict <-> nnI r0.po_restrict)
    invariant forall f [memI f r.po_restrict|memI f r0.po_restrict]. f > r.po_fileid -> (memI f r.po_restrict <-> memI f r0.po_restrict)
    invariant forall j [getI s j]. k0 <= j < k -> not allowed r0.po_restrict (getI s j)
  at loop 1 begin: let ghost r1 = r in let ghost gv = gaps_next v r.po_delta (pure { gaps s }) k (pure { lenI s + 1 }) (pure { pz ix t }) (pure { ptl ix t }) in
    assert { (dr_index_t r.po_delta.dr_ix).ix_version = v /\ 0 <= gaps s k < 9223372036854775807 /\ rok r.po_delta };
    assert { gaps s k = getI s k - (if k = 0 then -1 else getI s (k-1)) }
  at call next#1 args: (pure { gaps s k }) gv
  at call next#1 after: gaps_step v r1.po_delta r.po_delta (pure { gaps s }) k (pure { lenI s + 1 }) (pure { pz ix t }) (pure { ptl ix t }) gv; k <- k + 1
  at loop 2 before: rb <- r
  loop 2
    variant lenI r.po_restrict - i
    invariant 0 <= i <= lenI r.po_restrict
    invariant forall j [getI r.po_restrict j]. 0 <= j < i -> getI r.po_restrict j < r.po_fileid
  at loop 2 after: assert { forall j. 0 <= j < lenI rb.po_restrict - i -> memI (getI rb.po_restrict (i + j)) rb.po_restrict }
  at call =r.restrict#1 after: assert { forall f. f >= r.po_fileid -> memI f r.po_restrict -> memI f rb.po_restrict };
    assert { forall f. f >= r.po_fileid -> memI f rb.po_restrict -> memI f r.po_restrict by let j = whereI f rb.po_restrict in j >= i /\ getI r.po_restrict (j - i) = f };
    assert { lenI r.po_restrict > 0 -> memI (getI r.po_restrict 0) r.po_restrict };
    assert { memI r.po_fileid r.po_restrict -> lenI r.po_restrict > 0 /\ getI r.po_restrict 0 = r.po_fileid }
  at call next#2 before: let ghost gv2 = gaps_next v r.po_delta (pure { gaps s }) k (pure { lenI s + 1 }) (pure { pz ix t }) (pure { ptl ix t }) in
    assert { gaps s k = 0 }
  at call next#2 args: (pure { gaps s k }) gv2
  ensures [the next allowed file] res0 -> let s = plist ix t in let k = at_ r ix t in
    listat r ix t k /\ at_ (old r) ix t < k /\ r.po_fileid = getI s (k-1) /\ allowed (old r).po_restrict r.po_fileid /\
    (forall j [getI s j]. at_ (old r) ix t <= j < k-1 -> not allowed (old r).po_restrict (getI s j)) /\
    increasing r.po_restrict /\ (nnI r.po_restrict <-> nnI (old r).po_restrict) /\
    (forall f [memI f r.po_restrict|memI f (old r).po_restrict]. f > r.po_fileid -> (memI f r.po_restrict <-> memI f (old r).po_restrict))
  ensures [or there is none] not res0 -> forall j [getI (plist ix t) j]. at_ (old r) ix t <= j < lenI (plist ix t) -> not allowed (old r).po_restrict (getI (plist ix t) j)

func index.(*Index).postingList use=RoundTrip,Layout,Lists
  requires ixok ix /\ 0 <= trigram < 16777216 /\ increasing restrict
  at entry: let ghost s = pure { plist ix trigram } in
  at call next#1 args: ix trigram
  at loop 1 before: assert { at_ r ix trigram = 0 }; assert { increasing r.po_restrict }
  loop 1
    variant r.po_count
    invariant increasing r.po_restrict /\ listat r ix trigram (at_ r ix trigram) /\ (lenI s > 0 -> nnI r.po_restrict <-> nnI restrict)
    invariant lenI s > 0 -> forall f [memI f r.po_restrict|memI f restrict]. f > r.po_fileid -> (memI f r.po_restrict <-> memI f restrict)
    invariant increasing x /\ nnI x /\ forall f [memI f x|memI f s]. memI f x <-> memI f s /\ allowed restrict f /\ f <= r.po_fileid
  ensures [exactly the recorded files] nnI res0 /\ increasing res0 /\ forall f [memI f res0]. memI f res0 <-> memI f (plist ix trigram) /\ allowed restrict f

func index.(*Index).postingAnd use=RoundTrip,Layout,Lists
  requires ixok ix /\ 0 <= trigram < 16777216 /\ increasing restrict /\ increasing list
  at entry: let ghost s = pure { plist ix trigram } in let ghost l0 = list in
  at call next#1 args: ix trigram
  at loop 1 before: assert { at_ r ix trigram = 0 }; assert { increasing r.po_restrict }
  loop 1
    variant r.po_count
    invariant increasing r.po_restrict /\ listat r ix trigram (at_ r ix trigram) /\ (lenI s > 0 -> nnI r.po_restrict <-> nnI restrict)
    invariant lenI s > 0 -> forall f [memI f r.po_restrict|memI f restrict]. f > r.po_fileid -> (memI f r.po_restrict <-> memI f restrict)
    invariant 0 <= x_len <= i <= lenI list /\ lenI list = lenI l0 /\ (nnI list <-> nnI l0)
    invariant forall j [getI list j]. i <= j < lenI list -> getI list j = getI l0 j
    invariant forall j [getI l0 j]. 0 <= j < i -> getI l0 j <= r.po_fileid
    invariant increasing (subI list 0 x_len)
    invariant forall f [memI f (subI list 0 x_len)]. memI f (subI list 0 x_len) <-> memI f s /\ allowed restrict f /\ memI f l0 /\ f <= r.po_fileid
  at call =x#2 before: let ghost l1 = list in let ghost n1 = x_len in put_at list x_len fileid; mem_snoc (pure { subI list 0 x_len }) fileid;
    assert { memI fileid s /\ memI fileid l0 by getI l0 i = fileid }; assert { forall j [getI (subI list 0 n1) j]. 0 <= j < n1 -> memI (getI (subI list 0 n1) j) (subI list 0 n1) }
  at call =x#2 after: assert { subI list 0 x_len = snocI (subI l1 0 n1) fileid }
  loop 2
    variant lenI list - i
    invariant x_len <= i_L2 <= i <= lenI list
    invariant forall j [getI l0 j]. 0 <= j < i -> getI l0 j < fileid
  ensures [exactly the files in both] increasing res0 /\ (nnI res0 <-> nnI (old list)) /\ forall f [memI f res0]. memI f res0 <-> memI f (old list) /\ memI f (plist ix trigram) /\ allowed restrict f

func index.(*Index).postingOr use=RoundTrip,Layout,Lists
  requires ixok ix /\ 0 <= trigram < 16777216 /\ increasing restrict /\ increasing list
  requires forall j [getI list j]. 0 <= j < lenI list -> getI list j >= 0
  at entry: let ghost s = pure { plist ix trigram } in let ghost ref m = -1 in assert { stored ix trigram }; ids_fit s (pure { (dr_index_t ix).ix_numName });
    mem_sub list 0 0
  at call next#1 args: ix trigram
  at loop 1 before: assert { at_ r ix trigram = 0 }; assert { increasing r.po_restrict }
  loop 1
    variant r.po_count
    invariant increasing r.po_restrict /\ listat r ix trigram (at_ r ix trigram) /\ (lenI s > 0 -> nnI r.po_restrict <-> nnI restrict)
    invariant lenI s > 0 -> m = r.po_fileid /\ forall f [memI f r.po_restrict|memI f restrict]. f > r.po_fileid -> (memI f r.po_restrict <-> memI f restrict)
    invariant 0 <= i <= lenI list /\ -1 <= m
    invariant forall j [getI list j]. 0 <= j < i -> getI list j <= m
    invariant forall j [getI list j]. i <= j < lenI list -> getI list j > m
    invariant forall j [getI x j]. 0 <= j < lenI x -> getI x j <= m
    invariant increasing x /\ nnI x
    invariant forall f [memI f x]. memI f x <-> memI f (subI list 0 i) \/ (memI f s /\ allowed restrict f /\ f <= m)
  loop 2
    variant lenI list - i
    invariant i_L2 <= i <= lenI list
    invariant forall j [getI list j]. 0 <= j < i -> getI list j < fileid
    invariant increasing x /\ nnI x
    invariant forall j k [getI list j, getI x k]. i <= j < lenI list -> 0 <= k < lenI x -> getI x k < getI list j
    invariant forall j [getI x j]. 0 <= j < lenI x -> getI x j < fileid
    invariant forall f [memI f x]. memI f x <-> memI f (subI list 0 i) \/ (memI f s /\ allowed restrict f /\ f <= m)
  at call =x#2 before: mem_snoc x (pure { getI list i }); mem_upto list i
  at call =x#3 before: mem_snoc x fileid; assert { memI fileid s /\ allowed restrict fileid /\ m < fileid }; 
    assert { forall f. memI f s /\ allowed restrict f /\ f <= fileid -> f <= m \/ f = fileid }
  at loop 1 end: m <- r.po_fileid
  at call =x#3 after: if pure { i < lenI list } then mem_upto list i
  at return *: mem_sub list i (pure { lenI list }); mem_cat (pure { subI list 0 i }) (pure { subI list i (lenI list) });
    assert { eqI list (catI (subI list 0 i) (subI list i (lenI list))) }
  at call =x#4 before: let ghost x4 = x in
  at call =x#4 after: assert { x = catI x4 (subI list i (lenI list)) }; mem_cat x4 (pure { subI list i (lenI list) })
  ensures [exactly the files in either] nnI res0 /\ increasing res0 /\ forall f [memI f res0]. memI f res0 <-> memI f list \/ (memI f (plist ix trigram) /\ allowed restrict f)

func index.mergeOr use=RoundTrip,Layout,Lists
  requires increasing l1 /\ increasing l2
  at entry: mem_sub l1 0 0; mem_sub l2 0 0
  loop 1
    variant lenI l1 - i + lenI l2 - j
    invariant 0 <= i <= lenI l1 /\ 0 <= j <= lenI l2
    invariant increasing l
    invariant forall a b [getI l a, getI l1 b]. 0 <= a < lenI l -> i <= b < lenI l1 -> getI l a < getI l1 b
    invariant forall a b [getI l a, getI l2 b]. 0 <= a < lenI l -> j <= b < lenI l2 -> getI l a < getI l2 b
    invariant forall f [memI f l]. memI f l <-> memI f (subI l1 0 i) \/ memI f (subI l2 0 j)
  at call =l#1 before: mem_snoc l (pure { getI l1 i }); mem_upto l1 i
  at call =l#2 before: mem_snoc l (pure { getI l2 j }); mem_upto l2 j
  at call =l#3 before: mem_snoc l (pure { getI l1 i }); mem_upto l1 i; mem_upto l2 j
  at return *: assert { eqI (subI l1 0 i) l1 }; assert { eqI (subI l2 0 j) l2 }
  ensures [exactly the files in either] increasing res0 /\ forall f [memI f res0]. memI f res0 <-> memI f l1 \/ memI f l2

func index.(*Index).postingQuery use=RoundTrip,Layout,Lists
  ghostparam (ghost d: int)
  variant d
  requires ixok ix /\ isquery q d /\ increasing restrict /\ below_num ix restrict
  at entry: let ghost ts = (dr_query_t q).q_Trigram in let ghost qs = (dr_query_t q).q_Sub in
  at call postingQuery#* args: (d-1)
  at return 2: mem_all list
  at return 3: assert { forall f. allowed restrict f /\ satisfies ix q f -> memI f list }
  at return 4: assert { forall f. allowed restrict f /\ satisfies ix q f -> memI f list }
  at return 5: assert { forall f. memI f list -> allowed restrict f /\ satisfies ix q f }
  loop 1
    variant (dr_index_t ix).ix_numName - i
    invariant lenI list = (dr_index_t ix).ix_numName /\ nnI list /\ forall j [getI list j]. 0 <= j < i -> getI list j = j
  loop 2
    invariant increasing list /\ below_num ix list /\ (nnI list <-> ix2 > 0)
    invariant ix2 > 0 -> forall f [memI f list]. memI f list <-> allowed restrict f /\ forall i [getS ts i]. 0 <= i < ix2 -> hastri ix (getS ts i) f
  loop 3
    invariant increasing list /\ below_num ix list
    invariant lenS ts + ix3 > 0 -> nnI list
    invariant lenS ts + ix3 = 0 -> not (nnI list)
    invariant lenS ts + ix3 > 0 -> forall f [memI f list]. memI f list <-> allowed restrict f /\ (forall i [getS ts i]. 0 <= i < lenS ts -> hastri ix (getS ts i) f) /\
      (forall i [getP qs i]. 0 <= i < ix3 -> satisfies ix (getP qs i) f)
  loop 4
    invariant increasing list /\ below_num ix list /\ (nnI list <-> ix4 > 0)
    invariant forall f [memI f list]. memI f list <-> ix4 > 0 /\ allowed restrict f /\ exists i. 0 <= i < ix4 /\ hastri ix (getS ts i) f
  loop 5
    invariant increasing list /\ below_num ix list
    invariant forall f [memI f list]. memI f list <-> allowed restrict f /\ ((exists i. 0 <= i < lenS ts /\ hastri ix (getS ts i) f) \/
      (exists i. 0 <= i < ix5 /\ satisfies ix (getP qs i) f))
  ensures [exactly the files that satisfy the query] increasing ret /\ below_num ix ret /\ forall f [memI f ret]. memI f ret <-> allowed restrict f /\ satisfies ix q f

func index.(*Index).PostingList use=RoundTrip,Layout,Lists
  requires ixok ix /\ 0 <= trigram < 16777216
  ensures [exactly the recorded files] increasing res0 /\ forall f [memI f res0]. memI f res0 <-> memI f (plist ix trigram)

func index.(*Index).PostingAnd use=RoundTrip,Layout,Lists
  requires ixok ix /\ 0 <= trigram < 16777216 /\ increasing list
  ensures [exactly the files in both] increasing res0 /\ forall f [memI f res0]. memI f res0 <-> memI f (old list) /\ memI f (plist ix trigram)

func index.(*Index).PostingOr use=RoundTrip,Layout,Lists
  requires ixok ix /\ 0 <= trigram < 16777216 /\ increasing list
  requires forall j [getI list j]. 0 <= j < lenI list -> getI list j >= 0
  ensures [exactly the files in either] increasing res0 /\ forall f [memI f res0]. memI f res0 <-> memI f list \/ memI f (plist ix trigram)

func index.(*Index).PostingQuery use=RoundTrip,Layout,Lists
  ghostparam (ghost d: int)
  requires ixok ix /\ isquery q d
  at call postingQuery#1 args: d
  ensures [exactly the files that satisfy the query] increasing res0 /\ below_num ix res0 /\ forall f [memI f res0]. memI f res0 <-> satisfies ix q f
