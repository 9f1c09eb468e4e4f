# C04: the posting index as it is written.
include find.spec
unit postw
package index
use index.postDataWriter
prefix postDataWriter pw_
capped postDataWriter.block

why Packed uses Layout
  (* the posting index bytes x written so far, and the block bl being filled *)
  predicate packed2 (x: seqB) (bl: capB) (last: int) (ts cs os st: seqI) = entries ts cs os /\ lenI st >= 1 /\ increasing st /\ getI st 0 = 0 /\
    let m = lenI st - 1 in let lo = getI st m in lenB x = 256 * m /\ lo <= lenI ts /\ (lo = lenI ts -> lenI ts = 0 /\ m = 0) /\
    (forall j [getI st j]. 0 <= j < m -> blockis (subB x (256 * j) (256 * j + 256)) ts cs os (getI st j) (getI st (j+1))) /\
    blockis bl.cB_a ts cs os lo (lenI ts) /\ bl.cB_n = lenB (benc ts cs os lo (lenI ts)) /\ last = (if lo = lenI ts then 0 else getI os (lenI ts - 1))
  function idx (h: map int buffer_t) (d: map int seqB) (w: postDataWriter_t) (ist: int) : seqB = subB (view h d w.pw_postIndexFile) ist (lenB (view h d w.pw_postIndexFile))
  (* the writer can write lists, and its posting index records ts, cs, os *)
  predicate wready (h: map int buffer_t) (d: map int seqB) (w: postDataWriter_t) = bok h d w.pw_out /\ w.pw_delta.dw_out = w.pw_out /\ wpend w.pw_delta /\
    (g_writeVersion <> 2 -> w.pw_delta.dw_nb = 0) /\
    (w.pw_postIndexFile <> 0 -> bok h d w.pw_postIndexFile /\ w.pw_postIndexFile <> w.pw_out /\ (get h w.pw_postIndexFile).bf_file <> (get h w.pw_out).bf_file)
  predicate kept (h: map int buffer_t) (d: map int seqB) (w: postDataWriter_t) (ts cs os: seqI) (ist: int) = w.pw_postIndexFile <> 0 /\ 0 <= ist <= lenB (view h d w.pw_postIndexFile) /\
    lenB w.pw_block.cB_a = 256 /\ 0 <= w.pw_block.cB_n <= 256 /\
    if g_writeVersion = 1 then layout1 (idx h d w ist) ts cs os /\ w.pw_block.cB_n = 0 else exists st. packed2 (idx h d w ist) w.pw_block (w.pw_lastOffset - w.pw_base) ts cs os st
  (* another list may be recorded *)
  predicate fits1 (w: postDataWriter_t) (ts os: seqI) = 0 < w.pw_t < 16777216 /\ 0 <= w.pw_count < 4611686018427387904 /\
    0 <= w.pw_base <= w.pw_offset < 4611686018427387904 /\ (lenI ts > 0 -> getI ts (lenI ts - 1) < w.pw_t /\ getI os (lenI ts - 1) <= w.pw_offset - w.pw_base)
  let rec ghost benc_ext (ts cs os us ds ps: seqI) (lo k: int) : unit
    requires { 0 <= lo <= k <= lenI ts /\ lenI cs = lenI ts /\ lenI os = lenI ts /\ lenI ts <= lenI us }
    requires { forall i [getI us i|getI ds i|getI ps i]. 0 <= i < lenI ts -> getI us i = getI ts i /\ getI ds i = getI cs i /\ getI ps i = getI os i }
    ensures { benc us ds ps lo k = benc ts cs os lo k } variant { k }
  = if k > lo then begin benc_ext ts cs os us ds ps lo (k-1);
      let j = k-1 in benc_unfold us ds ps lo j; benc_unfold ts cs os lo j;
      assert { getI us j = getI ts j /\ getI ds j = getI cs j /\ bdelta ps lo j = bdelta os lo j } end
  predicate ext (ts us: seqI) (t: int) = lenI us = lenI ts + 1 /\ getI us (lenI ts) = t /\ forall i [getI us i|getI ts i]. 0 <= i < lenI ts -> getI us i = getI ts i
  predicate more (ts cs os: seqI) (t c o: int) (us ds ps: seqI) = ext ts us t /\ ext cs ds c /\ ext os ps o
  let ghost entries_more (ts cs os: seqI) (t c o: int) (us ds ps: seqI) : unit
    requires { entries ts cs os /\ more ts cs os t c o us ds ps /\ 0 < t < 16777216 /\ 0 <= c < 4611686018427387904 /\ 0 <= o < 4611686018427387904 }
    requires { lenI ts > 0 -> getI ts (lenI ts - 1) < t /\ getI os (lenI ts - 1) <= o }
    ensures { entries us ds ps }
  = ()
  let rec ghost blocks_more (x: seqB) (ts cs os st us ds ps: seqI) (m: int) : unit
    requires { increasing st /\ 0 <= m < lenI st /\ getI st 0 = 0 /\ getI st m <= lenI ts }
    requires { 0 <= lenI ts /\ lenI cs = lenI ts /\ lenI os = lenI ts /\ lenI ts <= lenI us }
    requires { forall i [getI us i|getI ds i|getI ps i]. 0 <= i < lenI ts -> getI us i = getI ts i /\ getI ds i = getI cs i /\ getI ps i = getI os i }
    requires { forall j [getI st j]. 0 <= j < m -> blockis (subB x (256 * j) (256 * j + 256)) ts cs os (getI st j) (getI st (j+1)) }
    ensures { forall j [getI st j]. 0 <= j < m -> blockis (subB x (256 * j) (256 * j + 256)) us ds ps (getI st j) (getI st (j+1)) } variant { m }
  = if m > 0 then begin assert { getI st (m-1) < getI st m /\ 0 <= getI st (m-1) by m = 1 \/ getI st 0 < getI st (m-1) }; blocks_more x ts cs os st us ds ps (m-1);
      benc_ext ts cs os us ds ps (pure { getI st (m-1) }) (pure { getI st (m-1+1) }) end
  let rec ghost blocks_cat (x b: seqB) (ts cs os st sv: seqI) (m: int) : unit
    requires { 0 <= m /\ 256 * m <= lenB x /\ forall i [getI sv i|getI st i]. 0 <= i <= m -> getI sv i = getI st i }
    requires { forall j [getI st j]. 0 <= j < m -> blockis (subB x (256 * j) (256 * j + 256)) ts cs os (getI st j) (getI st (j+1)) }
    ensures { forall j [getI sv j]. 0 <= j < m -> blockis (subB (catB x b) (256 * j) (256 * j + 256)) ts cs os (getI sv j) (getI sv (j+1)) } variant { m }
  = if m > 0 then begin blocks_cat x b ts cs os st sv (m-1); let j = m-1 in assert { getI sv j = getI st j /\ getI sv (j+1) = getI st (j+1) };
      assert { eqB (subB (catB x b) (256 * j) (256 * j + 256)) (subB x (256 * j) (256 * j + 256)) } end
  let rec ghost elems_cat (x b: seqB) (ts cs os us ds ps: seqI) (n: int) : unit
    requires { 0 <= n <= lenI ts /\ 11 * n <= lenB x /\ forall i [getI us i|getI ds i|getI ps i]. 0 <= i < lenI ts -> getI us i = getI ts i /\ getI ds i = getI cs i /\ getI ps i = getI os i }
    requires { forall k [getI ts k]. 0 <= k < n -> subB x (11 * k) (11 * k + 11) = fent (getI ts k) (getI cs k) (getI os k) }
    ensures { forall k [getI us k]. 0 <= k < n -> subB (catB x b) (11 * k) (11 * k + 11) = fent (getI us k) (getI ds k) (getI ps k) } variant { n }
  = if n > 0 then begin elems_cat x b ts cs os us ds ps (n-1); let k = n-1 in assert { eqB (subB (catB x b) (11 * k) (11 * k + 11)) (subB x (11 * k) (11 * k + 11)) };
      assert { getI us k = getI ts k /\ getI ds k = getI cs k /\ getI ps k = getI os k } end
  (* an entry added to the block *)
  let ghost packed_here (x: seqB) (bl bl2: capB) (last last2: int) (ts cs os st: seqI) (t c o: int) (us ds ps: seqI) : unit
    requires { packed2 x bl last ts cs os st /\ more ts cs os t c o us ds ps /\ entries us ds ps }
    requires { let e = bent t c (o - last) in bl.cB_n + lenB e <= 256 /\ bl2.cB_a = overB bl.cB_a bl.cB_n e /\ bl2.cB_n = bl.cB_n + lenB e /\ last2 = o }
    ensures { packed2 x bl2 last2 us ds ps st }
  = let m = pure { lenI st - 1 } in let lo = pure { getI st m } in let n = pure { lenI ts } in
    assert { 0 <= lo by m = 0 \/ getI st 0 < getI st m };
    blocks_more x ts cs os st us ds ps m; benc_ext ts cs os us ds ps lo n;
    let p = pure { benc ts cs os lo n } in let e = pure { bent t c (o - last) } in
    assert { getI us n = t /\ getI ds n = c /\ bdelta ps lo n = o - last };
    benc_unfold us ds ps lo n; assert { benc us ds ps lo (n+1) = catB p e };
    assert { forall i. 0 <= i < lenB p -> getB bl.cB_a i = getB p i by getB bl.cB_a i = getB (subB bl.cB_a 0 (lenB p)) i };
    assert { eqB (subB bl2.cB_a 0 (lenB (catB p e))) (catB p e) }
  (* a full block written out, and an entry begun in the next *)
  let ghost packed_next (x x2: seqB) (bl bl2: capB) (last last2: int) (ts cs os st: seqI) (t c o: int) (us ds ps: seqI) : unit
    requires { packed2 x bl last ts cs os st /\ more ts cs os t c o us ds ps /\ entries us ds ps }
    requires { x2 = catB x bl.cB_a /\ bl.cB_n + lenB (bent t c (o - last)) > 256 /\ lenB (bent t c (o - last)) <= 256 }
    requires { let e = bent t c o in lenB e <= 256 /\ lenB bl2.cB_a = 256 /\ subB bl2.cB_a 0 (lenB e) = e /\ bl2.cB_n = lenB e /\ last2 = o /\
      forall i. lenB e <= i < 256 -> getB bl2.cB_a i = 0 }
    ensures { packed2 x2 bl2 last2 us ds ps (snocI st (lenI ts)) }
  = let m = pure { lenI st - 1 } in let lo = pure { getI st m } in let n = pure { lenI ts } in let sv = pure { snocI st (lenI ts) } in
    assert { 0 <= lo by m = 0 \/ getI st 0 < getI st m };
    assert { benc ts cs os lo lo = emptyB }; assert { lo < n };
    blocks_more x ts cs os st us ds ps m; benc_ext ts cs os us ds ps lo n;
    assert { increasing sv }; assert { benc us ds ps n n = emptyB };
    assert { getI us n = t /\ getI ds n = c /\ bdelta ps n n = o };
    benc_unfold us ds ps n n; assert { eqB (catB emptyB (bent t c o)) (bent t c o) }; assert { benc us ds ps n (n+1) = bent t c o };
    assert { eqB (subB x2 (256 * m) (256 * m + 256)) bl.cB_a };
    blocks_cat x bl.cB_a us ds ps st sv m
  (* the last block written out *)
  let ghost packed_done (x x2: seqB) (bl: capB) (last: int) (ts cs os st: seqI) : unit
    requires { packed2 x bl last ts cs os st }
    requires { x2 = if bl.cB_n > 0 then catB x bl.cB_a else x }
    ensures { layout2 x2 (if bl.cB_n > 0 then lenI st else 0) ts cs os (if bl.cB_n > 0 then snocI st (lenI ts) else st) }
  = let m = pure { lenI st - 1 } in let lo = pure { getI st m } in let n = pure { lenI ts } in let sv = pure { snocI st (lenI ts) } in
    assert { 0 <= lo by m = 0 \/ getI st 0 < getI st m };
    assert { benc ts cs os lo lo = emptyB };
    if pure { bl.cB_n > 0 } then begin assert { lo < n }; assert { increasing sv }; assert { eqB (subB x2 (256 * m) (256 * m + 256)) bl.cB_a };
      blocks_cat x bl.cB_a ts cs os st sv m end
    else begin if pure { lo < n } then begin benc_unfold ts cs os lo (n-1); assert { lenB (bent (getI ts (n-1)) (getI cs (n-1)) (bdelta os lo (n-1))) >= 3 } end end
  (* an entry added to a version 1 index *)
  let ghost layout1_more (x x2: seqB) (ts cs os: seqI) (t c o: int) (us ds ps: seqI) : unit
    requires { layout1 x ts cs os /\ more ts cs os t c o us ds ps /\ entries us ds ps /\ x2 = catB x (fent t c o) /\ 0 <= c < 4294967296 /\ 0 <= o < 4294967296 }
    ensures { layout1 x2 us ds ps }
  = let n = pure { lenI ts } in assert { eqB (subB x2 (11 * n) (11 * n + 11)) (fent t c o) };
    elems_cat x (pure { fent t c o }) ts cs os us ds ps n
  (* what is written to the lists leaves the posting index alone *)
  let ghost kept_still (h: map int buffer_t) (d: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (w w2: postDataWriter_t) (ts cs os: seqI) (ist: int) (y: seqB) : unit
    requires { wready h d w /\ kept h d w ts cs os ist /\ wrote h d h2 d2 w.pw_out y }
    requires { w2.pw_postIndexFile = w.pw_postIndexFile /\ w2.pw_block = w.pw_block /\ w2.pw_lastOffset = w.pw_lastOffset /\ w2.pw_base = w.pw_base }
    ensures { kept h2 d2 w2 ts cs os ist }
  = assert { idx h2 d2 w2 ist = idx h d w ist }
  let ghost ready_still (h: map int buffer_t) (d: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (w w2: postDataWriter_t) (y: seqB) : unit
    requires { wready h d w /\ wrote h d h2 d2 w.pw_out y }
    requires { w2.pw_postIndexFile = w.pw_postIndexFile /\ w2.pw_out = w.pw_out /\ w2.pw_delta.dw_out = w.pw_out /\ wpend w2.pw_delta /\ (g_writeVersion <> 2 -> w2.pw_delta.dw_nb = 0) }
    ensures { wready h2 d2 w2 }
  = ()
endwhy

func index.(*postDataWriter).init use=RoundTrip,Layout,Packed
  requires bok h_buffer_t g_disk postData /\ (postIndex <> 0 -> bok h_buffer_t g_disk postIndex /\ postIndex <> postData /\ (get h_buffer_t postIndex).bf_file <> (get h_buffer_t postData).bf_file)
  at exit: if pure { postIndex <> 0 } then begin let ghost e = pure { emptyI } in assert { w.pw_block = { cB_a = w.pw_block.cB_a; cB_n = 0 } }; let ghost st = pure { snocI emptyI 0 } in
      assert { benc e e e 0 0 = emptyB }; assert { eqB (idx h_buffer_t g_disk w (lenB (view h_buffer_t g_disk postIndex))) emptyB }; assert { eqB (subB w.pw_block.cB_a 0 0) emptyB }; assert { packed2 emptyB w.pw_block 0 e e e st } end
  ensures wready h_buffer_t g_disk w /\ w.pw_out = postData /\ w.pw_postIndexFile = postIndex /\ w.pw_base = lenB (view h_buffer_t g_disk postData) /\ w.pw_delta.dw_nb = 0
  ensures [nothing is recorded yet] postIndex <> 0 -> kept h_buffer_t g_disk w emptyI emptyI emptyI (lenB (view h_buffer_t g_disk postIndex))

func index.(*postDataWriter).trigram use=RoundTrip,Layout,Packed
  requires wready h_buffer_t g_disk w /\ 0 < t < 16777216 /\ 0 <= w.pw_numTrigram < 4611686018427387904
  ensures [the place of the list] w.pw_offset = lenB (view (old h_buffer_t) (old g_disk) w.pw_out) /\ w.pw_count = 0 /\ w.pw_t = t /\ w.pw_lastID = -1
  ensures [the list is headed by its trigram] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_out (be24 t)
  ensures wready h_buffer_t g_disk w
  ensures w.pw_numTrigram = (old w).pw_numTrigram + 1
  at exit: ready_still (pure { old h_buffer_t }) (pure { old g_disk }) h_buffer_t g_disk (pure { old w }) w (pure { be24 t })

func index.(*postDataWriter).fileid use=RoundTrip,Layout,Packed
  requires wready h_buffer_t g_disk w /\ -1 <= w.pw_lastID < id < 4611686018427387904 /\ 0 <= w.pw_count < 4611686018427387904
  ensures [the file is counted] w.pw_count = (old w).pw_count + 1 /\ w.pw_lastID = id
  ensures wready h_buffer_t g_disk w
  ensures [its distance from the last is coded] let y = added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_out in let x = id - (old w).pw_lastID in
    wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_out y /\
    if g_writeVersion = 2 then sofar y w.pw_delta.dw_b w.pw_delta.dw_nb ((old w).pw_delta.dw_b + pow2 ((old w).pw_delta.dw_nb) * gval (renum x)) ((old w).pw_delta.dw_nb + glen (renum x))
    else y = uvenc x
  at exit: ready_still (pure { old h_buffer_t }) (pure { old g_disk }) h_buffer_t g_disk (pure { old w }) w (pure { added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.pw_out })

func index.(*postDataWriter).endTrigram use=RoundTrip,Layout,Packed
  ghostparam (ghost ts: seqI) (ghost cs: seqI) (ghost os: seqI) (ghost ist: int)
  requires wready h_buffer_t g_disk w
  requires w.pw_postIndexFile <> 0 -> kept h_buffer_t g_disk w ts cs os ist /\ fits1 w ts os
  at entry: let ghost h0 = pure { h_buffer_t } in let ghost d0 = pure { g_disk } in let ghost w0 = pure { w } in let ghost pf = pure { w.pw_postIndexFile } in let ghost x = pure { idx h0 d0 w0 ist } in
    let ghost st = if pure { pf <> 0 /\ g_writeVersion <> 1 } then (any seqI ensures { packed2 x w0.pw_block (w0.pw_lastOffset - w0.pw_base) ts cs os result }) else pure { emptyI } in
    let ghost t0 = pure { w.pw_t } in let ghost c0 = pure { w.pw_count } in let ghost o0 = pure { w.pw_offset - w.pw_base } in
    let ghost us = pure { snocI ts t0 } in let ghost ds = pure { snocI cs c0 } in let ghost ps = pure { snocI os o0 } in
    if pure { pf <> 0 } then begin entries_more ts cs os t0 c0 o0 us ds ps end
  at call Write#1 after: let ghost h1 = pure { h_buffer_t } in let ghost d1 = pure { g_disk } in let ghost w1 = pure { w } in let ghost y1 = pure { added h0 d0 h1 d1 w0.pw_out } in
    ready_still h0 d0 h1 d1 w0 w1 y1; if pure { pf <> 0 } then kept_still h0 d0 h1 d1 w0 w1 ts cs os ist y1
  at call Flush#1 after: let ghost h2 = pure { h_buffer_t } in let ghost d2 = pure { g_disk } in let ghost w2 = pure { w } in let ghost y2 = pure { added h1 d1 h2 d2 w0.pw_out } in
    wrote_added h1 d1 h2 d2 (pure { w0.pw_out }) (pure { if w1.pw_delta.dw_nb = 0 then emptyB else snocB emptyB w1.pw_delta.dw_b });
    ready_still h1 d1 h2 d2 w1 w2 y2; if pure { pf <> 0 } then kept_still h1 d1 h2 d2 w1 w2 ts cs os ist y2; if pure { pf <> 0 } then assert { idx h2 d2 w2 ist = x };
  at call WriteTrigram#1 after: let ghost h3 = pure { h_buffer_t } in let ghost d3 = pure { g_disk } in
  at call WriteUint#1 after: let ghost h4 = pure { h_buffer_t } in let ghost d4 = pure { g_disk } in wrote_more h2 d2 h3 d3 h4 d4 pf (pure { be24 t0 }) (pure { be32 c0 })
  at call WriteUint#2 after: wrote_more h2 d2 h4 d4 h_buffer_t g_disk pf (pure { catB (be24 t0) (be32 c0) }) (pure { be32 o0 });
    assert { eqB (catB (catB (be24 t0) (be32 c0)) (be32 o0)) (fent t0 c0 o0) }; assert { eqB (idx h_buffer_t g_disk w ist) (catB x (fent t0 c0 o0)) };
    layout1_more x (pure { idx h_buffer_t g_disk w ist }) ts cs os t0 c0 o0 us ds ps
  at call PutUvarint#1 after: let ghost last = pure { w0.pw_lastOffset - w0.pw_base } in let ghost ref spilled = false in assert { getB buf 0 = div t0 65536 /\ getB buf 1 = mod (div t0 256) 256 /\ getB buf 2 = mod t0 256 };
    assert { forall i. 0 <= i < lenB (uvenc c0) -> getB buf (3 + i) = getB (uvenc c0) i };
    assert { eqB (subB buf 0 n) (catB (be24 t0) (uvenc c0)) }; let ghost hd = pure { catB (be24 t0) (uvenc c0) } in assert { 0 <= o0 - last }; let ghost bf1 = pure { buf } in
  at call PutUvarint#2 after: assert { forall i. 0 <= i < n -> getB buf i = getB hd i by getB buf i = getB (subB bf1 0 n) i }; assert { eqB (subB buf 0 (n + n1)) (catB hd (uvenc (o0 - last))) }; assert { eqB (catB hd (uvenc (o0 - last))) (bent t0 c0 (o0 - last)) };
  at call Write#2 after: assert { eqB (plainB { cB_a = w0.pw_block.cB_a; cB_n = 256 }) w0.pw_block.cB_a }; assert { view h_buffer_t g_disk pf = catB (view h2 d2 pf) w0.pw_block.cB_a };
    assert { eqB (idx h_buffer_t g_disk w ist) (catB x w0.pw_block.cB_a) }; spilled <- true
  at call PutUvarint#3 after: assert { forall i. 0 <= i < n -> getB buf i = getB hd i by getB buf i = getB (subB bf1 0 n) i }; assert { eqB (subB buf 0 (n + n1)) (catB hd (uvenc o0)) }; assert { eqB (catB hd (uvenc o0)) (bent t0 c0 o0) };
  at exit: if spilled then begin assert { eqB (subB w.pw_block.cB_a 0 (lenB (bent t0 c0 o0))) (bent t0 c0 o0) }; packed_next x (pure { idx h_buffer_t g_disk w ist }) (pure { w0.pw_block }) (pure { w.pw_block }) last o0 ts cs os st t0 c0 o0 us ds ps end
    else begin assert { eqB w.pw_block.cB_a (overB w0.pw_block.cB_a w0.pw_block.cB_n (bent t0 c0 (o0 - last))) }; packed_here x (pure { w0.pw_block }) (pure { w.pw_block }) last o0 ts cs os st t0 c0 o0 us ds ps end
  ensures wready h_buffer_t g_disk w /\ w.pw_delta.dw_nb = 0
  ensures [the list is recorded, with its count and place] w.pw_postIndexFile <> 0 -> kept h_buffer_t g_disk w (snocI ts w.pw_t) (snocI cs w.pw_count) (snocI os (w.pw_offset - w.pw_base)) ist

func index.(*postDataWriter).flush use=RoundTrip,Layout,Packed
  ghostparam (ghost ts: seqI) (ghost cs: seqI) (ghost os: seqI) (ghost ist: int)
  requires wready h_buffer_t g_disk w /\ (w.pw_postIndexFile <> 0 -> kept h_buffer_t g_disk w ts cs os ist)
  ensures wready h_buffer_t g_disk w
  ensures [the posting index records every list] w.pw_postIndexFile <> 0 -> let x = idx h_buffer_t g_disk w ist in
    if g_writeVersion = 1 then layout1 x ts cs os else exists st nb. layout2 x nb ts cs os st
  at entry: let ghost h0 = pure { h_buffer_t } in let ghost d0 = pure { g_disk } in let ghost w0 = pure { w } in let ghost pf = pure { w.pw_postIndexFile } in let ghost x = pure { idx h0 d0 w0 ist } in
    let ghost st = if pure { pf <> 0 /\ g_writeVersion <> 1 } then (any seqI ensures { packed2 x w0.pw_block (w0.pw_lastOffset - w0.pw_base) ts cs os result }) else pure { emptyI } in
  at call Write#1 after: assert { eqB (plainB { cB_a = w0.pw_block.cB_a; cB_n = 256 }) w0.pw_block.cB_a }; assert { view h_buffer_t g_disk pf = catB (view h0 d0 pf) w0.pw_block.cB_a };
    assert { eqB (idx h_buffer_t g_disk w ist) (catB x w0.pw_block.cB_a) };
  at exit: if pure { pf <> 0 /\ g_writeVersion <> 1 } then packed_done x (pure { idx h_buffer_t g_disk w ist }) (pure { w0.pw_block }) (pure { w0.pw_lastOffset - w0.pw_base }) ts cs os st
