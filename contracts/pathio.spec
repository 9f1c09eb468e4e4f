# C05: the lists of paths. What a PathWriter appends, a PathReader reads back.
unit pathio
package index
include buf.spec
use index.Path index.PathWriter index.PathReader []index.Path index.Index index.mmapData
prefix PathWriter pw_
prefix PathReader pr_
prefix Index ix_
prefix mmapData md_
drop Index.name Index.Verbose mmapData.f
extern index.(*Index).corrupt forbid
extern (binary.bigEndian).Uint32 args=1
  val x_binary_bigEndian_Uint32 (b: seqB) : int
    requires { lenB b >= 4 }
    ensures { 0 <= result < 4294967296 /\ be32 result = subB b 0 4 }
extern (binary.bigEndian).Uint64 args=1
  val x_binary_bigEndian_Uint64 (b: seqB) : int
    requires { lenB b >= 8 }
    ensures { 0 <= result < 18446744073709551616 /\ be64 result = subB b 0 8 }
extern funcvar:yield mod=g_yielded,g_stopped
  val funcvar_yield (p: path_t) : bool
    writes { g_yielded, g_stopped }
    ensures { g_yielded = snoc_path_t (old g_yielded) p /\ (g_stopped <-> (old g_stopped \/ not result)) }
extern binary.Uvarint
  val x_binary_Uvarint (b: seqB) : (int, int)
    ensures { let (v, n) = result in n <= lenB b /\ forall x. 0 <= x < 18446744073709551616 /\ isprefix (uvenc x) b -> v = x /\ n = lenB (uvenc x) }
extern bytes.IndexByte
  val x_bytes_IndexByte (b: seqB) (c: int) : int
    ensures { -1 <= result < lenB b }
    ensures { result < 0 -> forall i. 0 <= i < lenB b -> getB b i <> c }
    ensures { result >= 0 -> getB b result = c /\ forall i. 0 <= i < result -> getB b i <> c }

why
  predicate isprefix (p s: seqB) = lenB p <= lenB s /\ forall i [getB s i|getB p i]. 0 <= i < lenB p -> getB s i = getB p i
  predicate nonul (p: seqB) = forall i. 0 <= i < lenB p -> getB p i <> 0
  (* the code of path p: its first pre bytes come from the path before it *)
  function code2 (pre: int) (p: seqB) : seqB = catB (catB (uvenc pre) (uvenc (lenB p - pre))) (subB p pre (lenB p))
  predicate shares (last p: seqB) (pre: int) = 0 <= pre <= lenB last /\ pre <= lenB p /\ forall i [getB p i]. 0 <= i < pre -> getB p i = getB last i
  (* where a reader can start *)
  predicate starts (group n: int) = if group > 0 then mod n group = 0 else n = 0
  (* the bytes added for path p after the n paths of which the last is last *)
  predicate coded (y: seqB) (version group n: int) (last p: seqB) =
    if version = 1 then y = snocB p 0
    else exists pre. y = code2 pre p /\ shares last p pre /\ (group >= 0 /\ starts group n -> pre = 0)
  predicate wok (h: map int buffer_t) (d: map int seqB) (w: pathWriter_t) = bok h d w.pw_data /\ 0 <= w.pw_n /\ 0 <= w.pw_group /\
    (w.pw_version = 1 \/ w.pw_version = 2) /\ 0 <= w.pw_start <= lenB (view h d w.pw_data) /\
    (w.pw_index <> 0 -> bok h d w.pw_index /\ w.pw_index <> w.pw_data /\ (get h w.pw_index).bf_file <> (get h w.pw_data).bf_file)
  (* x appended to b, and xi to bi, if there is one *)
  predicate wrote2 (h: map int buffer_t) (d: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (b: int) (x: seqB) (bi: int) (xi: seqB) =
    if bi = 0 then wrote h d h2 d2 b x else
      let fi = (get h bi).bf_file in let h1 = set h bi (get h2 bi) in let d1 = set d fi (get d2 fi) in
      wrote h d h1 d1 bi xi /\ wrote h1 d1 h2 d2 b x
  let ghost wrote_both (h: map int buffer_t) (d: map int seqB) (h1: map int buffer_t) (d1: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (b: int) (x: seqB) (bi: int) (xi: seqB) : unit
    requires { bi <> 0 /\ b <> bi /\ (get h b).bf_file <> (get h bi).bf_file /\ wrote h d h1 d1 bi xi /\ wrote h1 d1 h2 d2 b x }
    ensures { wrote2 h d h2 d2 b x bi xi }
  = assert { h1 = set h bi (get h2 bi) }; assert { d1 = set d (get h bi).bf_file (get d2 (get h bi).bf_file) }
  function beuint (x: int) : seqB
  axiom beuint_def: forall x. beuint x = if g_writeVersion = 1 then be32 x else be64 x
  (* a list of n paths ps, coded as ys, from the front of d; tl follows it *)
  function catn (ys: int -> seqB) (k: int) : seqB
  axiom catn_0: forall ys. catn ys 0 = emptyB
  axiom catn_s: forall ys k. 0 <= k -> catn ys (k+1) = catB (catn ys k) (ys k)
  function prev (ps: int -> seqB) (k: int) : seqB = if k = 0 then emptyB else ps (k-1)
  predicate listed (ps ys: int -> seqB) (n version group: int) (d: seqB) =
    0 <= n /\ 0 <= group /\ (version = 1 \/ version = 2) /\
    (forall k [ps k|ys k]. 0 <= k < n -> 0 < lenB (ps k) <= 1099511627776 /\ coded (ys k) version group k (prev ps k) (ps k) /\ (version = 1 -> nonul (ps k))) /\
    lenB (catn ys n) <= lenB d /\ isprefix (catn ys n) d /\ (version = 1 -> lenB d > lenB (catn ys n) /\ getB d (lenB (catn ys n)) = 0)
  function after (ys: int -> seqB) (k: int) (d: seqB) : seqB = subB d (lenB (catn ys k)) (lenB d)
  let rec ghost catn_pre (ys: int -> seqB) (k n: int) : unit
    requires { 0 <= k <= n } ensures { isprefix (catn ys k) (catn ys n) } variant { n }
  = if k < n then begin catn_pre ys k (n-1); assert { catn ys ((n-1)+1) = catB (catn ys (n-1)) (ys (n-1)) } end
  let ghost after_next (ys: int -> seqB) (k n: int) (d: seqB) : unit
    requires { 0 <= k < n /\ lenB (catn ys n) <= lenB d /\ isprefix (catn ys n) d }
    ensures { after ys k d = catB (ys k) (after ys (k+1) d) /\ lenB (catn ys (k+1)) <= lenB d /\ lenB (catn ys (k+1)) = lenB (catn ys k) + lenB (ys k) }
  = catn_pre ys (k+1) n; assert { catn ys (k+1) = catB (catn ys k) (ys k) }; assert { isprefix (catB (catn ys k) (ys k)) d };
    assert { forall i. 0 <= i < lenB (ys k) -> getB d (lenB (catn ys k) + i) = getB (catB (catn ys k) (ys k)) (lenB (catn ys k) + i) };
    assert { eqB (after ys k d) (catB (ys k) (after ys (k+1) d)) }
  (* what a reader that last read cur finds in data *)
  predicate comes (data: seqB) (version: int) (cur p tl: seqB) =
    if version = 1 then data = catB (snocB p 0) tl /\ nonul p /\ lenB p > 0
    else 0 < lenB p <= 1099511627776 /\ exists pre. data = catB (code2 pre p) tl /\ shares cur p pre
  predicate ends (r: pathReader_t) = r.pr_limit = 0 \/ (r.pr_version = 1 /\ lenB r.pr_data > 0 /\ getB r.pr_data 0 = 0)
  let ghost comes_next (ps ys: int -> seqB) (n version group: int) (d: seqB) (k: int) (cur: seqB) : unit
    requires { listed ps ys n version group d /\ 0 <= k < n }
    requires { version = 1 \/ starts group k \/ cur = prev ps k }
    ensures { comes (after ys k d) version cur (ps k) (after ys (k+1) d) }
  = after_next ys k n d;
    assert { coded (ys k) version group k (prev ps k) (ps k) };
    if version <> 1 then assert { exists pre. ys k = code2 pre (ps k) /\ shares cur (ps k) pre }
  let ghost ends_last (ps ys: int -> seqB) (n version group: int) (d: seqB) : unit
    requires { listed ps ys n version group d /\ version = 1 } ensures { lenB (after ys n d) > 0 /\ getB (after ys n d) 0 = 0 } = ()
  (* the reader has read path k and can go on to the end of the list or its limit *)
  predicate stands (r: pathReader_t) (ps ys: int -> seqB) (n group: int) (d: seqB) (k: int) =
    listed ps ys n r.pr_version group d /\ 0 <= k < n /\ r.pr_path.path_s = ps k /\ r.pr_data = after ys (k+1) d /\
    (r.pr_limit < n - k /\ (r.pr_version = 2 -> r.pr_limit >= 0))
  (* the place of the path fits the width of the index *)
  predicate fits (w: pathWriter_t) (off: int) = w.pw_index <> 0 /\ (w.pw_version = 1 \/ starts w.pw_group w.pw_n) -> 0 <= off - w.pw_start < (if g_writeVersion = 1 then 4294967296 else 9223372036854775808)
  val ref g_yielded : seq_path_t  (* what an iteration has been given, and whether it has asked to stop *)
  val ref g_stopped : bool
  let ghost be32_inj (x y: int) : unit requires { 0 <= x < 4294967296 /\ 0 <= y < 4294967296 /\ be32 x = be32 y } ensures { x = y }
  = assert { lenB (be32 x) = 4 /\ lenB (be32 y) = 4 }
  let ghost be64_inj (x y: int) : unit requires { 0 <= x < 18446744073709551616 /\ 0 <= y < 18446744073709551616 /\ be64 x = be64 y } ensures { x = y }
  = assert { lenB (be64 x) = 8 /\ lenB (be64 y) = 8 };
    assert { div x 281474976710656 = 256 * div x 72057594037927936 + mod (div x 281474976710656) 256 }; assert { div y 281474976710656 = 256 * div y 72057594037927936 + mod (div y 281474976710656) 256 }; assert { div x 281474976710656 = div y 281474976710656 };
    assert { div x 1099511627776 = 256 * div x 281474976710656 + mod (div x 1099511627776) 256 }; assert { div y 1099511627776 = 256 * div y 281474976710656 + mod (div y 1099511627776) 256 }; assert { div x 1099511627776 = div y 1099511627776 };
    assert { div x 4294967296 = 256 * div x 1099511627776 + mod (div x 4294967296) 256 }; assert { div y 4294967296 = 256 * div y 1099511627776 + mod (div y 4294967296) 256 }; assert { div x 4294967296 = div y 4294967296 };
    assert { div x 16777216 = 256 * div x 4294967296 + mod (div x 16777216) 256 }; assert { div y 16777216 = 256 * div y 4294967296 + mod (div y 16777216) 256 }; assert { div x 16777216 = div y 16777216 };
    assert { div x 65536 = 256 * div x 16777216 + mod (div x 65536) 256 }; assert { div y 65536 = 256 * div y 16777216 + mod (div y 65536) 256 }; assert { div x 65536 = div y 65536 };
    assert { div x 256 = 256 * div x 65536 + mod (div x 256) 256 }; assert { div y 256 = 256 * div y 65536 + mod (div y 256) 256 }; assert { div x 256 = div y 256 };
    assert { div x 1 = 256 * div x 256 + mod (div x 1) 256 }; assert { div y 1 = 256 * div y 256 + mod (div y 1) 256 }; assert { div x 1 = div y 1 }; ()
  function bytesat (d: seqB) (off n: int) : seqB = subB d off (off + n)
  (* the names of an index *)
  predicate named (ix: index_t) (ps ys: int -> seqB) =
    let d = ix.ix_data.md_d in let region = subB d ix.ix_nameData ix.ix_postData in let n = ix.ix_numName in
    0 <= ix.ix_nameData <= ix.ix_postData /\ ix.ix_postData <= lenB d < 4611686018427387904 /\ 0 <= ix.ix_nameIndex /\
    listed ps ys n ix.ix_version 16 region /\
    if ix.ix_version = 1 then
      ix.ix_nameIndex + 4 * n <= lenB d /\ lenB region < 4294967296 /\ forall k. 0 <= k < n -> bytesat d (ix.ix_nameIndex + 4 * k) 4 = be32 (lenB (catn ys k))
    else ix.ix_nameIndex + n <= lenB d /\ forall g. 0 <= 16 * g < n -> ix.ix_nameIndex + 8 * g + 8 <= lenB d /\ bytesat d (ix.ix_nameIndex + 8 * g) 8 = be64 (lenB (catn ys (16 * g)))
  function ixcode (w: pathWriter_t) (off: int) : seqB = if w.pw_version = 1 \/ starts w.pw_group w.pw_n then beuint (off - w.pw_start) else emptyB
  (* the paths written so far are ps, coded as ys; ist is where their index began *)
  function pcount (version group n: int) : int
  axiom pcount_def: forall version group n [pcount version group n]. pcount version group n = if version = 1 then n else if group > 0 then div (n + group - 1) group else if n > 0 then 1 else 0
  function width : int
  axiom width_def: width = if g_writeVersion = 1 then 4 else 8
  predicate entry (x: seqB) (ist version group: int) (ys: int -> seqB) (k: int)
  axiom entry_def: forall x ist version group ys k [entry x ist version group ys k]. entry x ist version group ys k <->
    (version = 1 \/ mod k group = 0 -> bytesat x (ist + width * pcount version group k) width = beuint (lenB (catn ys k)))
  predicate written (h: map int buffer_t) (d: map int seqB) (w: pathWriter_t) (ps ys: int -> seqB) (n ist: int) =
    wok h d w /\ (w.pw_version = 2 -> w.pw_n = n /\ w.pw_last.path_s = prev ps n) /\ 0 <= n /\
    (forall k [ps k|ys k]. 0 <= k < n -> 0 < lenB (ps k) <= 1099511627776 /\ coded (ys k) w.pw_version w.pw_group k (prev ps k) (ps k) /\ (w.pw_version = 1 -> nonul (ps k))) /\
    subB (view h d w.pw_data) w.pw_start (lenB (view h d w.pw_data)) = catn ys n /\
    (w.pw_index <> 0 -> (w.pw_version = 1 \/ w.pw_group > 0) /\ let x = view h d w.pw_index in 0 <= ist /\ lenB x = ist + width * pcount w.pw_version w.pw_group n /\
      forall k. 0 <= k < n -> entry x ist w.pw_version w.pw_group ys k)
  let rec ghost catn_ext (ys zs: int -> seqB) (n: int) : unit
    requires { 0 <= n /\ forall k. 0 <= k < n -> ys k = zs k } ensures { forall k. 0 <= k <= n -> catn ys k = catn zs k } variant { n }
  = if n > 0 then begin catn_ext ys zs (n-1); assert { catn ys ((n-1)+1) = catB (catn ys (n-1)) (ys (n-1)) /\ catn zs ((n-1)+1) = catB (catn zs (n-1)) (zs (n-1)) } end
  let ghost pcount_step (version group n: int) : unit
    requires { 0 <= n /\ (version = 1 \/ group > 0) }
    ensures { pcount version group (n+1) = pcount version group n + (if version = 1 \/ mod n group = 0 then 1 else 0) }
  = if version <> 1 then begin let q = pure { div n group } in let r = pure { mod n group } in assert { n = group * q + r };
      if r = 0 then begin assert { div (n + group - 1) group = q }; assert { div (n + group) group = q + 1 } end
      else begin assert { div (n + group - 1) group = q + 1 }; assert { div (n + group) group = q + 1 } end end
  let rec ghost pcount_mono (version group k n: int) : unit
    requires { 0 <= k <= n /\ (version = 1 \/ group > 0) } ensures { pcount version group k <= pcount version group n } variant { n }
  = if k < n then begin pcount_mono version group k (n-1); pcount_step version group (n-1) end
  let rec ghost pcount_below (version group n: int) : unit
    requires { 0 <= n /\ (version = 1 \/ group > 0) }
    ensures { 0 <= pcount version group n }
    ensures { forall k. 0 <= k < n /\ (version = 1 \/ mod k group = 0) -> 0 <= pcount version group k < pcount version group n } variant { n }
  = if n > 0 then begin pcount_below version group (n-1); pcount_step version group (n-1) end
  let ghost bytesat_cat (x e: seqB) (w: int) : unit
    requires { 0 <= w }
    ensures { forall a. 0 <= a /\ a + w <= lenB x -> bytesat (catB x e) a w = bytesat x a w }
    ensures { w = lenB e -> bytesat (catB x e) (lenB x) w = e }
  = assert { forall a. 0 <= a /\ a + w <= lenB x -> eqB (bytesat (catB x e) a w) (bytesat x a w) };
    if w = lenB e then assert { eqB (bytesat (catB x e) (lenB x) w) e }
  let rec ghost entries_keep (x e: seqB) (ist version group: int) (ys zs: int -> seqB) (n m: int) : unit
    requires { 0 <= m <= n /\ 0 <= ist /\ (version = 1 \/ group > 0) /\ lenB x = ist + width * pcount version group n }
    requires { forall k. 0 <= k < n -> entry x ist version group ys k }
    requires { forall k. 0 <= k < n -> ys k = zs k }
    ensures { forall k. 0 <= k < m -> entry (catB x e) ist version group zs k }
    variant { m }
  = if m > 0 then begin entries_keep x e ist version group ys zs n (m-1);
      catn_ext ys zs n;
      if pure { version = 1 \/ mod (m-1) group = 0 } then begin
        pcount_below version group n;
        let a = pure { pcount version group (m-1) } in let b = pure { pcount version group n } in let wd = pure { width } in
        assert { 0 <= a < b }; assert { wd * b = wd * a + wd * (b - a) }; assert { wd * (b - a) >= wd }; assert { 0 <= wd * a };
        assert { entry x ist version group ys (m-1) };
        assert { eqB (bytesat (catB x e) (ist + wd * a) wd) (bytesat x (ist + wd * a) wd) } end;
      assert { entry (catB x e) ist version group zs (m-1) };
      assert { forall k. 0 <= k < m -> k < m - 1 \/ k = m - 1 } end
  (* one more path written: the list is one path longer *)
  let ghost written_step (h: map int buffer_t) (d: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (w w2: pathWriter_t) (ps ys: int -> seqB) (n ist: int) (p y: seqB) : unit
    requires { written h d w ps ys n ist /\ wok h2 d2 w2 /\ (w.pw_version = 1 -> nonul p) /\ 0 < lenB p <= 1099511627776 }
    requires { w2.pw_data = w.pw_data /\ w2.pw_index = w.pw_index /\ w2.pw_version = w.pw_version /\ w2.pw_group = w.pw_group /\ w2.pw_start = w.pw_start }
    requires { w.pw_version = 2 -> w2.pw_last.path_s = p /\ w2.pw_n = w.pw_n + 1 }
    requires { wrote2 h d h2 d2 w.pw_data y w.pw_index (ixcode w (lenB (view h d w.pw_data))) }
    requires { coded y w.pw_version w.pw_group w.pw_n w.pw_last.path_s p }
    requires { fits w (lenB (view h d w.pw_data)) }
    ensures { written h2 d2 w2 (set ps n p) (set ys n y) (n+1) ist }
  = let zs = pure { set ys n y } in let qs = pure { set ps n p } in
    catn_ext ys zs n; assert { catn zs (n+1) = catB (catn zs n) y };
    assert { view h2 d2 w.pw_data = catB (view h d w.pw_data) y };
    assert { eqB (subB (view h2 d2 w.pw_data) w.pw_start (lenB (view h2 d2 w.pw_data))) (catB (subB (view h d w.pw_data) w.pw_start (lenB (view h d w.pw_data))) y) };
    assert { forall k. 0 <= k < n -> qs k = ps k /\ zs k = ys k /\ prev qs k = prev ps k };
    assert { qs n = p /\ zs n = y /\ prev qs n = prev ps n };
    assert { coded (zs n) w.pw_version w.pw_group n (prev qs n) (qs n) };
    assert { forall k [qs k|zs k]. 0 <= k < n+1 -> 0 < lenB (qs k) <= 1099511627776 /\ coded (zs k) w.pw_version w.pw_group k (prev qs k) (qs k) /\ (w.pw_version = 1 -> nonul (qs k)) };
    assert { prev qs (n+1) = p };
    if w.pw_index <> 0 then begin
      let e = pure { ixcode w (lenB (view h d w.pw_data)) } in
      assert { view h2 d2 w.pw_index = catB (view h d w.pw_index) e };
      pcount_step (pure { w.pw_version }) (pure { w.pw_group }) n;
      assert { lenB e = if w.pw_version = 1 \/ mod n w.pw_group = 0 then width else 0 };
      pcount_below (pure { w.pw_version }) (pure { w.pw_group }) n;
      let x = pure { view h d w.pw_index } in let x2 = pure { view h2 d2 w.pw_index } in
      bytesat_cat x e (pure { width });
      assert { forall k. 0 <= k < n /\ (w.pw_version = 1 \/ mod k w.pw_group = 0) -> catn zs k = catn ys k };
      entries_keep x e ist (pure { w.pw_version }) (pure { w.pw_group }) ys zs n n;
      assert { lenB (catn zs n) = lenB (view h d w.pw_data) - w.pw_start };
      assert { w.pw_version = 1 \/ mod n w.pw_group = 0 -> e = beuint (lenB (catn zs n)) /\ ist + width * pcount w.pw_version w.pw_group n = lenB x /\ lenB e = width };
      assert { w.pw_version = 1 \/ mod n w.pw_group = 0 -> bytesat x2 (lenB x) width = e };
      assert { w.pw_version = 1 \/ mod n w.pw_group = 0 -> bytesat x2 (ist + width * pcount w.pw_version w.pw_group n) width = beuint (lenB (catn zs n)) };
      assert { lenB x2 = ist + width * pcount w.pw_version w.pw_group (n+1) };
      assert { entry x2 ist w.pw_version w.pw_group zs n };
      assert { forall k. 0 <= k < n+1 -> k < n \/ k = n };
      assert { forall k. 0 <= k < n+1 -> entry x2 ist w.pw_version w.pw_group zs k }
    end
  let ghost written_start (h: map int buffer_t) (d: map int seqB) (w: pathWriter_t) (ps ys: int -> seqB) : unit
    requires { wok h d w /\ w.pw_n = 0 /\ w.pw_last.path_s = emptyB /\ w.pw_start = lenB (view h d w.pw_data) /\ (w.pw_index <> 0 -> w.pw_version = 1 \/ w.pw_group > 0) }
    ensures { written h d w ps ys 0 (lenB (view h d w.pw_index)) }
  = assert { eqB (subB (view h d w.pw_data) w.pw_start (lenB (view h d w.pw_data))) (catn ys 0) };
    if w.pw_index <> 0 then assert { pcount w.pw_version w.pw_group 0 = 0 }
  (* what has been written is a list the readers accept, wherever it lies and whatever follows it *)
  let ghost written_listed (h: map int buffer_t) (d: map int seqB) (w: pathWriter_t) (ps ys: int -> seqB) (n ist: int) (tl: seqB) : unit
    requires { written h d w ps ys n ist /\ (w.pw_version = 1 -> lenB tl > 0 /\ getB tl 0 = 0) }
    ensures { listed ps ys n w.pw_version w.pw_group (catB (subB (view h d w.pw_data) w.pw_start (lenB (view h d w.pw_data))) tl) } = ()
endwhy

func index.NewPathWriter
  requires bok h_buffer_t g_disk data
  requires index <> 0 -> bok h_buffer_t g_disk index /\ index <> data /\ (get h_buffer_t index).bf_file <> (get h_buffer_t data).bf_file
  requires (version = 1 \/ version = 2) /\ 0 <= group
  ensures wok h_buffer_t g_disk res0 /\ res0.pw_n = 0 /\ res0.pw_data = data /\ res0.pw_index = index /\ res0.pw_version = version /\ res0.pw_group = group
  ensures res0.pw_last.path_s = emptyB
  ensures [offsets count from here] res0.pw_start = lenB (view h_buffer_t g_disk data)

func index.(*PathWriter).Write
  writes g_disk
  requires wok h_buffer_t g_disk w
  requires lenB p.path_s <= 1099511627776 /\ w.pw_n < 4611686018427387904
  at entry: let ghost off = pure { lenB (view h_buffer_t g_disk w.pw_data) } in let ghost ww = pure { w } in wrote_none h_buffer_t g_disk w.pw_data; if w.pw_index <> 0 then wrote_none h_buffer_t g_disk w.pw_index
  at call WriteString#1 before: let ghost h1 = pure { h_buffer_t } in let ghost d1 = pure { g_disk } in
    assert { if w.pw_index = 0 then h_buffer_t = old h_buffer_t /\ g_disk = old g_disk else wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_index (ixcode ww off) }
  at call WriteByte#1 before: let ghost h2 = pure { h_buffer_t } in let ghost d2 = pure { g_disk } in
  at return 1: wrote_more h1 d1 h2 d2 h_buffer_t g_disk w.pw_data p.path_s (pure { snocB emptyB 0 });
    let ghost y = pure { snocB p.path_s 0 } in assert { eqB y (catB p.path_s (snocB emptyB 0)) };
    if w.pw_index <> 0 then wrote_both (pure { old h_buffer_t }) (pure { old g_disk }) h1 d1 h_buffer_t g_disk w.pw_data y w.pw_index (pure { ixcode ww off });
    assert { wrote2 (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_data y w.pw_index (ixcode ww off) };
    assert { eqB (added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_data) y }
  at call WriteVarint#1 before: let ghost h1 = pure { h_buffer_t } in let ghost d1 = pure { g_disk } in
    assert { if w.pw_index = 0 then h_buffer_t = old h_buffer_t /\ g_disk = old g_disk else wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_index (ixcode ww off) };
    assert { shares (old w).pw_last.path_s p.path_s pre }
  at call WriteVarint#2 before: let ghost h2 = pure { h_buffer_t } in let ghost d2 = pure { g_disk } in
  at call WriteString#2 before: let ghost h3 = pure { h_buffer_t } in let ghost d3 = pure { g_disk } in
    wrote_more h1 d1 h2 d2 h3 d3 w.pw_data (pure { uvenc pre }) (pure { uvenc (lenB p.path_s - pre) })
  at call WriteString#2 after: wrote_more h1 d1 h3 d3 h_buffer_t g_disk w.pw_data (pure { catB (uvenc pre) (uvenc (lenB p.path_s - pre)) }) (pure { subB p.path_s pre (lenB p.path_s) });
    let ghost y = pure { code2 pre p.path_s } in
    if w.pw_index <> 0 then wrote_both (pure { old h_buffer_t }) (pure { old g_disk }) h1 d1 h_buffer_t g_disk w.pw_data y w.pw_index (pure { ixcode ww off });
    assert { wrote2 (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_data y w.pw_index (ixcode ww off) };
    assert { eqB (added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_data) y }
  loop 1
    invariant shares w.pw_last.path_s p.path_s pre
    variant lenB p.path_s - pre
  ensures wok h_buffer_t g_disk w
  ensures w.pw_data = (old w).pw_data /\ w.pw_index = (old w).pw_index /\ w.pw_version = (old w).pw_version /\ w.pw_group = (old w).pw_group /\ w.pw_start = (old w).pw_start
  ensures [the path is remembered and counted] w.pw_version = 2 -> w.pw_last = p /\ w.pw_n = (old w).pw_n + 1
  ensures [the code of the path is appended, and its place to the index] wrote2 (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_data
    (added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_data) w.pw_index (ixcode (old w) (lenB (view (old h_buffer_t) (old g_disk) w.pw_data)))
  ensures w.pw_n <= (old w).pw_n + 1
  ensures fits (old w) (lenB (view (old h_buffer_t) (old g_disk) w.pw_data))
  ensures [it is the code of this path] coded (added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_data) w.pw_version w.pw_group (old w).pw_n (old w).pw_last.path_s p.path_s

func index.(*PathWriter).Count
  ensures res0 = w.pw_n


func index.NewPathReader
  ghostparam (ghost gp: seqB) (ghost gt: seqB)
  requires version = 1 \/ version = 2
  requires limit = 0 \/ (version = 1 /\ lenB data > 0 /\ getB data 0 = 0) \/ comes data version emptyB gp gt
  at call Next#1 args: gp gt
  ensures res0.pr_version = version
  ensures [nothing to read] limit = 0 \/ (version = 1 /\ lenB data > 0 /\ getB data 0 = 0) -> lenB res0.pr_path.path_s = 0
  ensures [the first path is read] not (limit = 0 \/ (version = 1 /\ lenB data > 0 /\ getB data 0 = 0)) -> res0.pr_path.path_s = gp /\ res0.pr_data = gt /\ res0.pr_limit = (if limit > 0 then limit - 1 else limit)

func index.(*PathReader).Valid
  ensures res0 <-> lenB r.pr_path.path_s > 0

func index.(*PathReader).Next
  ghostparam (ghost gp: seqB) (ghost gt: seqB)
  requires r.pr_version = 1 \/ r.pr_version = 2
  requires ends r \/ comes r.pr_data r.pr_version r.pr_path.path_s gp gt
  at entry: let ghost dd = pure { r.pr_data } in let ghost cur = pure { r.pr_path.path_s } in
  at call IndexByte#1 after: assert { lenB dd > 0 }; assert { lenB gp > 0 \/ getB dd 0 = 0 }; if pure { lenB dd > 0 && getB dd 0 <> 0 } then begin assert { dd = catB (snocB gp 0) gt }; assert { getB dd (lenB gp) = 0 }; assert { i = lenB gp }; assert { eqB (subB dd 0 i) gp }; assert { eqB (subB dd (i+1) (lenB dd)) gt } end; assert { getB dd 0 <> 0 -> i = lenB gp}
  at call Uvarint#1 before: let ghost pr0 = any int ensures { dd = catB (code2 result gp) gt /\ shares cur gp result } in
    let ghost d1 = pure { catB (catB (uvenc (lenB gp - pr0)) (subB gp pr0 (lenB gp))) gt } in let ghost d2 = pure { catB (subB gp pr0 (lenB gp)) gt } in
    assert { eqB dd (catB (uvenc pr0) d1) }; assert { isprefix (uvenc pr0) dd }; assert { 0 <= pr0 <= 1099511627776 }
  at call =r.data#1 after: assert { eqB r.pr_data d1 }; assert { isprefix (uvenc (lenB gp - pr0)) d1 }
  at call =r.data#2 after: assert { eqB r.pr_data d2 }; assert { lenB d2 >= n }
  at call =r.path.s#6 after: assert { eqB r.pr_path.path_s gp }
  at call =r.data#3 after: assert { eqB r.pr_data gt }
  at return 2: assert { lenB dd > 0 }; assert { getB dd 0 = 0 }
  at return 3: assert { not (ends (old r)) }
  at return 4: assert { false }
  at return 5: assert { false }
  ensures r.pr_version = (old r).pr_version
  ensures [nothing more to read] ends (old r) -> not res0 /\ lenB r.pr_path.path_s = 0
  ensures [the next path is read] not (ends (old r)) -> res0 /\ r.pr_path.path_s = gp /\ r.pr_data = gt /\ r.pr_limit = (if (old r).pr_limit > 0 then (old r).pr_limit - 1 else (old r).pr_limit)

func index.(*PathReader).Path
  ensures res0 = r.pr_path

# the closure All returns: it hands out the paths from here to the limit or the end of the list, unless told to stop
func index.(*PathReader).All closure
  ghostparam (ghost ps: int -> seqB) (ghost ys: int -> seqB) (ghost n: int) (ghost group: int) (ghost d: seqB) (ghost k: int)
  requires lenB r.pr_path.path_s = 0 \/ stands r ps ys n group d k
  requires g_yielded = empty_path_t /\ not g_stopped
  at call yield#1 before: if pure { k + len_path_t g_yielded + 1 < n } then comes_next ps ys n (pure { r.pr_version }) group d (pure { k + len_path_t g_yielded + 1 }) (pure { r.pr_path.path_s });
    if pure { k + len_path_t g_yielded + 1 < n /\ r.pr_version = 1 } then begin let ghost pn = pure { ps (k + len_path_t g_yielded + 1) } in assert { getB r.pr_data 0 = getB pn 0 }; assert { not (getB r.pr_data 0 = 0) } end;
    if pure { k + len_path_t g_yielded + 1 < n } then () else if pure { r.pr_version = 1 } then ends_last ps ys n (pure { r.pr_version }) group d
  at call Next#1 args: (ps (k + len_path_t g_yielded)) (after ys (k + len_path_t g_yielded + 1) d)
  loop 1
    invariant stands r ps ys n group d (k + len_path_t g_yielded)
    invariant not g_stopped
    invariant (old r).pr_limit >= 0 -> r.pr_limit >= 0
    invariant r.pr_version = (old r).pr_version
    invariant if (old r).pr_limit < 0 then r.pr_limit = (old r).pr_limit else r.pr_limit = (old r).pr_limit - len_path_t g_yielded
    invariant forall i. 0 <= i < len_path_t g_yielded -> (get_path_t g_yielded i).path_s = ps (k + i)
    variant n - k - len_path_t g_yielded
  ensures [each path in turn] forall i. 0 <= i < len_path_t g_yielded -> (get_path_t g_yielded i).path_s = ps (k + i)
  ensures [all of them] not g_stopped -> len_path_t g_yielded = (if lenB (old r).pr_path.path_s = 0 then 0 else if (old r).pr_limit < 0 then n - k else (old r).pr_limit + 1)

func index.(*PathReader).All trusted
  ghostparam (ghost ps: int -> seqB) (ghost ys: int -> seqB) (ghost n: int) (ghost group: int) (ghost d: seqB) (ghost k: int)
  requires lenB r.pr_path.path_s = 0 \/ stands r ps ys n group d k
  ensures len_path_t res0 = (if lenB (old r).pr_path.path_s = 0 then 0 else if (old r).pr_limit < 0 then n - k else (old r).pr_limit + 1)
  ensures forall i. 0 <= i < len_path_t res0 -> (get_path_t res0 i).path_s = ps (k + i)

func index.(*Index).slice
  requires 0 <= off <= lenB ix.ix_data.md_d /\ lenB ix.ix_data.md_d < 4611686018427387904 /\ (n >= 0 -> off + n <= lenB ix.ix_data.md_d)
  ensures [those bytes] res0 = subB ix.ix_data.md_d off (if n < 0 then lenB ix.ix_data.md_d else off + n)

func index.(*Index).uint32
  requires lenB ix.ix_data.md_d < 4611686018427387904 /\ 0 <= off /\ off + 4 <= lenB ix.ix_data.md_d
  at call Uint32#1 after: assert { eqB (subB (bytesat ix.ix_data.md_d off 4) 0 4) (bytesat ix.ix_data.md_d off 4) }
  ensures [the number stored there] 0 <= res0 < 4294967296 /\ be32 res0 = bytesat ix.ix_data.md_d off 4

func index.(*Index).uint64
  ghostparam (ghost gv: int)
  requires lenB ix.ix_data.md_d < 4611686018427387904 /\ 0 <= off /\ off + 8 <= lenB ix.ix_data.md_d /\ 0 <= gv < 9223372036854775808 /\ bytesat ix.ix_data.md_d off 8 = be64 gv
  at call Uint64#1 after: assert { eqB (subB (bytesat ix.ix_data.md_d off 8) 0 8) (bytesat ix.ix_data.md_d off 8) }; be64_inj v gv
  ensures [the number stored there] res0 = gv

func index.(*Index).NamesAt
  ghostparam (ghost ps: int -> seqB) (ghost ys: int -> seqB)
  requires named ix ps ys /\ 0 <= min_ <= max_ <= ix.ix_numName
  at entry: let ghost n = pure { ix.ix_numName } in let ghost rd = pure { subB ix.ix_data.md_d ix.ix_nameData ix.ix_postData } in let ghost ver = pure { ix.ix_version } in
    let ghost base = pure { if ver = 1 then min_ else 16 * div min_ 16 } in
  at call NewPathReader#1 args: emptyB emptyB
  at call uint32#1 before: catn_pre ys min_ n
  at call uint32#1 after: be32_inj off (pure { lenB (catn ys min_) })
  at call uint64#1 before: catn_pre ys base n
  at call uint64#1 args: (lenB (catn ys base))
  at call NewPathReader#2 before: comes_next ps ys n ver 16 rd base emptyB;
    assert { eqB (subB ix.ix_data.md_d (ix.ix_nameData + off) ix.ix_postData) (after ys base rd) }
  at call NewPathReader#2 args: (ps base) (after ys (base+1) rd)
  at call NewPathReader#2 after: assert { base < max_ ->  stands names ps ys n 16 rd base /\ names.pr_limit = max_ - base - 1 }
  at call Next#1 before: if pure { names.pr_limit <> 0 } then comes_next ps ys n ver 16 rd (pure { base + ix1 + 1 }) (pure { names.pr_path.path_s })
  at call Next#1 args: (ps (base + ix1 + 1)) (after ys (base + ix1 + 2) rd)
  loop 1
    invariant if base + ix1 < max_ then stands names ps ys n 16 rd (base + ix1) /\ names.pr_limit = max_ - (base + ix1) - 1 else lenB names.pr_path.path_s = 0
    invariant names.pr_version = ver
  ensures [nothing there] min_ = max_ -> lenB res0.pr_path.path_s = 0
  ensures [at the path asked for] min_ < max_ -> stands res0 ps ys ix.ix_numName 16 (subB ix.ix_data.md_d ix.ix_nameData ix.ix_postData) min_ /\ res0.pr_version = ix.ix_version
  ensures [as many as asked for] min_ < max_ -> res0.pr_limit = max_ - min_ - 1

func index.(*Index).Name
  ghostparam (ghost ps: int -> seqB) (ghost ys: int -> seqB)
  requires named ix ps ys /\ 0 <= fileid < ix.ix_numName
  at call NamesAt#1 args: ps ys
  ensures [the name of the file] res0.path_s = ps fileid

func index.(*Index).Names
  ghostparam (ghost ps: int -> seqB) (ghost ys: int -> seqB)
  requires named ix ps ys /\ 0 <= lo <= hi <= ix.ix_numName
  at call NamesAt#1 args: ps ys
  at call All#1 args: ps ys ix.ix_numName 16 (subB ix.ix_data.md_d ix.ix_nameData ix.ix_postData) lo
  ensures [the names of the range] len_path_t res0 = hi - lo /\ forall i. 0 <= i < hi - lo -> (get_path_t res0 i).path_s = ps (lo + i)

func index.(*Index).Roots
  ghostparam (ghost ps: int -> seqB) (ghost ys: int -> seqB) (ghost n: int)
  requires lenB ix.ix_data.md_d < 4611686018427387904 /\ 0 <= ix.ix_pathData <= ix.ix_nameData <= lenB ix.ix_data.md_d
  requires listed ps ys n ix.ix_version 0 (subB ix.ix_data.md_d ix.ix_pathData ix.ix_nameData) /\ ix.ix_numPath = (if ix.ix_version = 1 then 0 - 1 else n)
  at entry: let ghost rd = pure { subB ix.ix_data.md_d ix.ix_pathData ix.ix_nameData } in assert { eqB (after ys 0 rd) rd };
    if pure { n > 0 } then comes_next ps ys n (pure { ix.ix_version }) 0 rd 0 emptyB else if pure { ix.ix_version = 1 } then ends_last ps ys n (pure { ix.ix_version }) 0 rd
  at call NewPathReader#1 args: (ps 0) (after ys 1 (subB ix.ix_data.md_d ix.ix_pathData ix.ix_nameData))
  ensures [all the roots from the first] if n = 0 then lenB res0.pr_path.path_s = 0
    else stands res0 ps ys n 0 (subB ix.ix_data.md_d ix.ix_pathData ix.ix_nameData) 0 /\ res0.pr_limit = (if ix.ix_version = 1 then 0 - 1 else n - 1)

func index.(*PathWriter).Collect
  ghostparam (ghost ps: int -> seqB) (ghost ys: int -> seqB) (ghost n: int) (ghost ist: int)
  writes g_disk
  requires written h_buffer_t g_disk w ps ys n ist
  requires forall i. 0 <= i < len_path_t paths -> 0 < lenB (get_path_t paths i).path_s <= 1099511627776 /\ (w.pw_version = 1 -> nonul (get_path_t paths i).path_s)
  requires n + len_path_t paths < 4611686018427387904 /\ w.pw_n < 4611686018427387904 - len_path_t paths
  at entry: let ghost ref qs = ps in let ghost ref zs = ys in
  at call Write#1 before: let ghost h1 = pure { h_buffer_t } in let ghost d1 = pure { g_disk } in let ghost w1 = pure { w } in
  at call Write#1 after: let ghost y = pure { added h1 d1 h_buffer_t g_disk w.pw_data } in let ghost pp = pure { p.path_s } in
    written_step h1 d1 h_buffer_t g_disk w1 (pure { w }) qs zs (pure { n + ix1 }) ist pp y;
    zs <- pure { set zs (n + ix1) y }; qs <- pure { set qs (n + ix1) pp }
  loop 1
    invariant written h_buffer_t g_disk w qs zs (n + ix1) ist
    invariant w.pw_data = (old w).pw_data /\ w.pw_index = (old w).pw_index /\ w.pw_version = (old w).pw_version /\ w.pw_group = (old w).pw_group /\ w.pw_start = (old w).pw_start
    invariant w.pw_version = 2 -> w.pw_n = (old w).pw_n + ix1
    invariant w.pw_version = 1 -> w.pw_n <= (old w).pw_n + ix1
    invariant forall i. 0 <= i < n -> qs i = ps i
    invariant forall i. 0 <= i < ix1 -> qs (n + i) = (get_path_t paths i).path_s
  at exit: assert { written h_buffer_t g_disk w qs zs (n + len_path_t paths) ist }; assert { forall i. 0 <= i < len_path_t paths -> qs (n + i) = (get_path_t paths i).path_s };
    assert { let (a, b) = (qs, zs) in written h_buffer_t g_disk w a b (n + len_path_t paths) ist /\ (forall i. 0 <= i < n -> a i = ps i) /\ forall i. 0 <= i < len_path_t paths -> a (n + i) = (get_path_t paths i).path_s }
  ensures [all of them are written, in order] exists qs zs. written h_buffer_t g_disk w qs zs (n + len_path_t paths) ist /\
    (forall i. 0 <= i < n -> qs i = ps i) /\ forall i. 0 <= i < len_path_t paths -> qs (n + i) = (get_path_t paths i).path_s
