# C09: pattern characters as byte sequences.
unit utf
package regexp
use syntax.Inst syntax.Prog regexp.runeBuilder regexp.cacheKey []int []byte
seq []int32 R
heap syntax.Prog
open syntax.Inst
prefix syntax.Prog pg_
prefix syntax.Inst in_
prefix runeBuilder rb_
prefix cacheKey ck_

why
  use map.Map
  (* UTF-8, as the encoding is defined *)
  predicate surr (r: int) = 0xD800 <= r <= 0xDFFF
  function ulen (r: int) : int = if r < 0x80 then 1 else if r < 0x800 then 2 else if r < 0x10000 then 3 else 4
  function ub (r i: int) : int =
    if r < 0x80 then r
    else if r < 0x800 then (if i = 0 then 192 + div r 64 else 128 + mod r 64)
    else if r < 0x10000 then (if i = 0 then 224 + div r 4096 else if i = 1 then 128 + mod (div r 64) 64 else 128 + mod r 64)
    else (if i = 0 then 240 + div r 262144 else if i = 1 then 128 + mod (div r 4096) 64 else if i = 2 then 128 + mod (div r 64) 64 else 128 + mod r 64)
  function rv (s: seqB) : int =
    if lenB s = 1 then getB s 0
    else if lenB s = 2 then 64 * (getB s 0 - 192) + getB s 1 - 128
    else if lenB s = 3 then 4096 * (getB s 0 - 224) + 64 * (getB s 1 - 128) + getB s 2 - 128
    else 262144 * (getB s 0 - 240) + 4096 * (getB s 1 - 128) + 64 * (getB s 2 - 128) + getB s 3 - 128
  (* s is the encoding of a code point from lo to hi *)
  predicate enc (s: seqB) (lo hi: int) = let r = rv s in
    lo <= r <= hi /\ 0 <= r <= 0x10FFFF /\ not surr r /\ lenB s = ulen r /\ forall i. 0 <= i < lenB s -> getB s i = ub r i
  (* every code point has its one encoding: the definition above is not empty *)
  let ghost enc_of (s: seqB) (r: int) : unit
    requires { 0 <= r <= 0x10FFFF /\ not surr r /\ lenB s = ulen r /\ forall i. 0 <= i < lenB s -> getB s i = ub r i }
    ensures { enc s r r }
  = assert { r = 262144 * div r 262144 + 4096 * mod (div r 4096) 64 + 64 * mod (div r 64) 64 + mod r 64
        by r = 64 * div r 64 + mod r 64 /\ div r 64 = 64 * div r 4096 + mod (div r 64) 64 /\ div r 4096 = 64 * div r 262144 + mod (div r 4096) 64 };
    if r < 0x80 then assert { getB s 0 = r }
    else if r < 0x800 then assert { getB s 0 = ub r 0 /\ getB s 1 = ub r 1 }
    else if r < 0x10000 then assert { getB s 0 = ub r 0 /\ getB s 1 = ub r 1 /\ getB s 2 = ub r 2 }
    else assert { getB s 0 = ub r 0 /\ getB s 1 = ub r 1 /\ getB s 2 = ub r 2 /\ getB s 3 = ub r 3 };
    assert { rv s = r }

  (* the machine: instruction x consumes the rest of s from k on, one byte range per instruction, and leaves for out *)
  predicate br (p: seq_inst_t) (b x: int) = b <= x < len_inst_t p /\ (get_inst_t p x).in_Op = 135
  predicate word (p: seq_inst_t) (b out x: int) (s: seqB) (k: int)
  val ghost wdef (p: seq_inst_t) (b out x: int) : unit   (* the definition of word, for one x *)
    ensures { let i = get_inst_t p x in forall s k [word p b out x s k]. word p b out x s k <->
      br p b x /\ 0 <= k < lenB s /\ div i.in_Arg 256 <= getB s k <= mod i.in_Arg 256 /\
      (if i.in_Out = out then k + 1 = lenB s else i.in_Out < x /\ word p b out i.in_Out s (k + 1)) }
  predicate closed (p: seq_inst_t) (b out: int) =
    forall x [get_inst_t p x]. br p b x -> let i = get_inst_t p x in 0 <= i.in_Arg < 65536 /\ (i.in_Out = out \/ i.in_Out < x /\ br p b i.in_Out)
  predicate keeps (p q: seq_inst_t) (b: int) = len_inst_t p <= len_inst_t q /\
    forall x [get_inst_t p x | get_inst_t q x]. br p b x -> get_inst_t q x = get_inst_t p x
  let rec ghost word_frame (p q: seq_inst_t) (b out x: int) : unit
    requires { closed p b out /\ keeps p q b /\ br p b x /\ 0 <= b }
    ensures { forall s k. word q b out x s k <-> word p b out x s k }
    variant { x }
  = wdef p b out x; wdef q b out x;
    let i = pure { get_inst_t p x } in
    assert { get_inst_t q x = i };
    if pure { i.in_Out <> out } then begin assert { br p b i.in_Out }; word_frame p q b out i.in_Out end
  (* the alternatives, and what they accept *)
  predicate acc (p: seq_inst_t) (b out: int) (a: seqI) (s: seqB)
  function which (p: seq_inst_t) (b out: int) (a: seqI) (s: seqB) : int
  axiom acc_in: forall p b out a s i [word p b out (getI a i) s 0]. 0 <= i < lenI a -> word p b out (getI a i) s 0 -> acc p b out a s
  axiom acc_at: forall p b out a s [acc p b out a s]. acc p b out a s -> let i = which p b out a s in 0 <= i < lenI a /\ word p b out (getI a i) s 0
  predicate allbr (p: seq_inst_t) (b: int) (a: seqI) = forall i [getI a i]. 0 <= i < lenI a -> br p b (getI a i)
  let ghost acc_frame (p q: seq_inst_t) (b out: int) (a: seqI) : unit
    requires { closed p b out /\ keeps p q b /\ allbr p b a /\ 0 <= b }
    ensures { forall s. acc q b out a s <-> acc p b out a s }
  = let lemma one (i: int) : unit requires { 0 <= i < lenI a } ensures { forall s. word q b out (getI a i) s 0 <-> word p b out (getI a i) s 0 }
      = word_frame p q b out (pure { getI a i }) in
    assert { forall s. acc q b out a s -> acc p b out a s }; assert { forall s. acc p b out a s -> acc q b out a s }
  let ghost acc_snoc (p: seq_inst_t) (b out: int) (a: seqI) (x: int) : unit
    requires { br p b x /\ len_inst_t p <= 0xffffffff /\ 0 <= b }
    ensures { forall s. acc p b out (snocI a x) s <-> acc p b out a s \/ word p b out x s 0 }
  = let a1 = snocI a x in
    assert { lenI a1 = lenI a + 1 /\ getI a1 (lenI a) = x /\ forall i. 0 <= i < lenI a -> getI a1 i = getI a i };
    assert { forall s. word p b out x s 0 -> acc p b out a1 s };
    assert { forall s. acc p b out a s -> acc p b out a1 s by getI a1 (which p b out a s) = getI a (which p b out a s) };
    assert { forall s. acc p b out a1 s -> acc p b out a s \/ word p b out x s 0 }
  (* the branch that stands for the instruction being replaced: g_pc, then the alternatives g_br linked by the instructions g_nd *)
  val ghost ref g_base : int
  val ghost ref g_pc : int
  val ghost ref g_br : seqI
  val ghost ref g_nd : seqI
  predicate shape (p: seq_inst_t) (pc b: int) (a nd: seqI) (begin_: int) =
    if lenI a = 0 then (get_inst_t p pc).in_Op = 5 /\ begin_ = pc
    else if lenI a = 1 then (get_inst_t p pc).in_Op = 6 /\ (get_inst_t p pc).in_Out = getI a 0 /\ begin_ = pc
    else lenI nd = lenI a - 1 /\ getI nd 0 = pc /\ begin_ = getI nd (lenI nd - 1) /\
      (forall i [getI nd i]. 0 < i < lenI nd -> b <= getI nd i < len_inst_t p) /\
      (forall i j. 0 <= i < j < lenI nd -> getI nd i < getI nd j) /\
      forall i [getI nd i]. 0 <= i < lenI nd -> let x = get_inst_t p (getI nd i) in x.in_Op = 0 /\ x.in_Out = getI a i /\
        (i < lenI nd - 1 -> x.in_Arg = getI nd (i + 1)) /\ (i = lenI nd - 1 -> x.in_Arg = getI a (i + 1))
  predicate cacheok (p: seq_inst_t) (b: int) (r: runeBuilder_t) = forall k [mem_map_cacheKey_t_int r.rb_cache k]. mem_map_cacheKey_t_int r.rb_cache k ->
    let x = get_map_cacheKey_t_int r.rb_cache k in br p b x /\ let i = get_inst_t p x in not k.ck_fold /\
    i.in_Arg = 256 * k.ck_lo + k.ck_hi /\ i.in_Out = (if k.ck_next = 0 then r.rb_out else k.ck_next)
  predicate wfb (p: seq_inst_t) (pc b: int) (a nd: seqI) (r: runeBuilder_t) =
    r.rb_p <> 0 /\ 0 <= pc < b <= len_inst_t p /\ 0 <= r.rb_out < b /\ closed p b r.rb_out /\ allbr p b a /\ shape p pc b a nd r.rb_begin /\ cacheok p b r /\ not (isnil_map_cacheKey_t_int r.rb_cache)
  (* outside the instructions added for it, only the replaced instruction changes *)
  function insts (h: map int prog_t) (r: runeBuilder_t) : seq_inst_t = (get h r.rb_p).pg_Inst
  predicate elsewhere (p q: seq_inst_t) (pc b: int) = forall x [get_inst_t p x | get_inst_t q x]. 0 <= x < b -> x <> pc -> get_inst_t q x = get_inst_t p x
  let ghost pw () : unit
    ensures { pow2 6 = 64 /\ pow2 7 = 128 /\ pow2 11 = 2048 /\ pow2 12 = 4096 /\ pow2 16 = 65536 /\ pow2 18 = 262144 /\ pow2 21 = 2097152 }
  = assert { pow2 (0+1) = 2 }; assert { pow2 (1+1) = 4 }; assert { pow2 (2+1) = 8 }; assert { pow2 (3+1) = 16 }; assert { pow2 (4+1) = 32 }; assert { pow2 (5+1) = 64 };
    assert { pow2 (6+1) = 128 }; assert { pow2 (7+1) = 256 }; assert { pow2 (8+1) = 512 }; assert { pow2 (9+1) = 1024 }; assert { pow2 (10+1) = 2048 }; assert { pow2 (11+1) = 4096 };
    assert { pow2 (12+1) = 8192 }; assert { pow2 (13+1) = 16384 }; assert { pow2 (14+1) = 32768 }; assert { pow2 (15+1) = 65536 }; assert { pow2 (16+1) = 131072 }; assert { pow2 (17+1) = 262144 };
    assert { pow2 (18+1) = 524288 }; assert { pow2 (19+1) = 1048576 }; assert { pow2 (20+1) = 2097152 }
  (* bits of a number under a mask of k ones *)
  val ghost mask_i32 (k m a: int) : unit
    requires { 0 <= k < 31 /\ m = pow2 k - 1 /\ 0 <= a }
    ensures { bitandnot_i32 a m = a - mod a (pow2 k) /\ bitand_i32 a m = mod a (pow2 k) /\ bitor_i32 a m = a - mod a (pow2 k) + m }
  (* the byte ranges from u to v, from place j on *)
  predicate box (u v: seqB) (n j: int) (s: seqB) (k: int)
  val ghost boxdef (u v: seqB) (n j: int) : unit
    ensures { forall s k [box u v n j s k]. box u v n j s k <-> if j >= n then k = lenB s else 0 <= k < lenB s /\ getB u j <= getB s k <= getB v j /\ box u v n (j + 1) s (k + 1) }
  predicate agree (lo hi m: int) = div lo m = div hi m \/ mod lo m = 0 /\ mod hi m = m - 1
  let ghost digs (c3 c2 c1 c0: int) : unit
    requires { 0 <= c0 < 64 /\ 0 <= c1 < 64 /\ 0 <= c2 < 64 /\ 0 <= c3 }
    ensures { let r = 262144 * c3 + 4096 * c2 + 64 * c1 + c0 in div r 64 = 4096 * c3 + 64 * c2 + c1 /\ mod r 64 = c0 /\ div r 4096 = 64 * c3 + c2 /\ mod (div r 64) 64 = c1 /\ div r 262144 = c3 /\ mod (div r 4096) 64 = c2 }
  = let r = 262144 * c3 + 4096 * c2 + 64 * c1 + c0 in
    assert { div r 64 = 4096 * c3 + 64 * c2 + c1 /\ mod r 64 = c0 }; assert { div r 4096 = 64 * c3 + c2 }; assert { div r 262144 = c3 };
    assert { mod (4096 * c3 + 64 * c2 + c1) 64 = c1 }; assert { mod (64 * c3 + c2) 64 = c2 }
  let ghost lex (a3 a2 a1 a0 b3 b2 b1 b0 c3 c2 c1 c0: int) : unit
    requires { 0 <= a0 < 64 /\ 0 <= a1 < 64 /\ 0 <= a2 < 64 /\ 0 <= a3 /\ 0 <= b0 < 64 /\ 0 <= b1 < 64 /\ 0 <= b2 < 64 /\ 0 <= b3 /\ 0 <= c0 < 64 /\ 0 <= c1 < 64 /\ 0 <= c2 < 64 /\ 0 <= c3 }
    requires { a3 = b3 /\ a2 = b2 /\ a1 = b1 \/ a0 = 0 /\ b0 = 63 }
    requires { a3 = b3 /\ a2 = b2 \/ a1 = 0 /\ a0 = 0 /\ b1 = 63 /\ b0 = 63 }
    requires { a3 = b3 \/ a2 = 0 /\ a1 = 0 /\ a0 = 0 /\ b2 = 63 /\ b1 = 63 /\ b0 = 63 }
    ensures { 262144 * a3 + 4096 * a2 + 64 * a1 + a0 <= 262144 * c3 + 4096 * c2 + 64 * c1 + c0 <= 262144 * b3 + 4096 * b2 + 64 * b1 + b0 <->
      a3 <= c3 <= b3 /\ a2 <= c2 <= b2 /\ a1 <= c1 <= b1 /\ a0 <= c0 <= b0 } = ()
  let ghost boxenc (u v: seqB) (n lo hi: int) : unit
    requires { 0x80 <= lo <= hi <= 0x10FFFF /\ n = ulen lo = ulen hi /\ (hi < 0xD800 \/ 0xDFFF < lo) }
    requires { agree lo hi 64 /\ (n > 2 -> agree lo hi 4096) /\ (n > 3 -> agree lo hi 262144) }
    requires { forall i. 0 <= i < n -> getB u i = ub lo i /\ getB v i = ub hi i }
    ensures { forall s. box u v n 0 s 0 <-> enc s lo hi }
  = boxdef u v n 0; boxdef u v n 1; boxdef u v n 2; boxdef u v n 3; boxdef u v n 4;
    let a3 = div lo 262144 in let a2 = mod (div lo 4096) 64 in let a1 = mod (div lo 64) 64 in let a0 = mod lo 64 in
    let b3 = div hi 262144 in let b2 = mod (div hi 4096) 64 in let b1 = mod (div hi 64) 64 in let b0 = mod hi 64 in
    assert { lo = 262144 * a3 + 4096 * a2 + 64 * a1 + a0 by lo = 64 * div lo 64 + a0 /\ div lo 64 = 64 * div lo 4096 + a1 /\ div lo 4096 = 64 * div lo 262144 + a2 };
    assert { hi = 262144 * b3 + 4096 * b2 + 64 * b1 + b0 by hi = 64 * div hi 64 + b0 /\ div hi 64 = 64 * div hi 4096 + b1 /\ div hi 4096 = 64 * div hi 262144 + b2 };
    assert { 0 <= a0 < 64 /\ 0 <= a1 < 64 /\ 0 <= a2 < 64 /\ 0 <= b0 < 64 /\ 0 <= b1 < 64 /\ 0 <= b2 < 64 /\ 0 <= a3 /\ 0 <= b3 };
    digs a3 a2 a1 a0; digs b3 b2 b1 b0;
    assert { a3 = b3 /\ a2 = b2 /\ a1 = b1 \/ a0 = 0 /\ b0 = 63 };
    assert { a3 = b3 /\ a2 = b2 \/ a1 = 0 /\ a0 = 0 /\ b1 = 63 /\ b0 = 63 };
    assert { a3 = b3 \/ a2 = 0 /\ a1 = 0 /\ a0 = 0 /\ b2 = 63 /\ b1 = 63 /\ b0 = 63 };
    let top = (if n = 2 then 192 else if n = 3 then 224 else 240) in
    let lemma one (s: seqB) : unit requires { lenB s = n } ensures { box u v n 0 s 0 <-> enc s lo hi }
    = let c3 = (if n = 4 then pure { getB s 0 - 240 } else 0) in
      let c2 = (if n = 4 then pure { getB s 1 - 128 } else if n = 3 then pure { getB s 0 - 224 } else 0) in
      let c1 = (if n = 4 then pure { getB s 2 - 128 } else if n = 3 then pure { getB s 1 - 128 } else pure { getB s 0 - 192 }) in
      let c0 = pure { getB s (n - 1) - 128 } in
      let r = 262144 * c3 + 4096 * c2 + 64 * c1 + c0 in
      assert { r = rv s };
      assert { getB u 0 = ub lo 0 /\ getB v 0 = ub hi 0 /\ getB u 1 = ub lo 1 /\ getB v 1 = ub hi 1 /\ (n > 2 -> getB u 2 = ub lo 2 /\ getB v 2 = ub hi 2) /\ (n > 3 -> getB u 3 = ub lo 3 /\ getB v 3 = ub hi 3) };
      assert { box u v n 0 s 0 <-> a3 <= c3 <= b3 /\ a2 <= c2 <= b2 /\ a1 <= c1 <= b1 /\ a0 <= c0 <= b0 };
      if 0 <= c0 && c0 < 64 && 0 <= c1 && c1 < 64 && 0 <= c2 && c2 < 64 && 0 <= c3 then begin
        lex a3 a2 a1 a0 b3 b2 b1 b0 c3 c2 c1 c0; digs c3 c2 c1 c0;
        assert { lo <= r <= hi -> ulen r = n /\ not surr r /\ forall i. 0 <= i < n -> getB s i = ub r i };
        assert { box u v n 0 s 0 <-> enc s lo hi }
      end else begin
        assert { not (box u v n 0 s 0) };
        assert { not (enc s lo hi) by enc s lo hi -> (getB s 0 = ub r 0 /\ getB s 1 = ub r 1 /\ (n > 2 -> getB s 2 = ub r 2) /\ (n > 3 -> getB s 3 = ub r 3)) && false }
      end in
    let lemma other (s: seqB) : unit requires { lenB s <> n } ensures { not (box u v n 0 s 0) /\ not (enc s lo hi) } = () in
    ()
  (* the code points of a class, a list of ranges *)
  predicate ins (r: seqR) (x: int)
  function inat (r: seqR) (x: int) : int
  axiom ins_in: forall r x i [getR r i, ins r x]. 0 <= i < lenR r - 1 -> mod i 2 = 0 -> getR r i <= x <= getR r (i + 1) -> ins r x
  axiom ins_at: forall r x [ins r x]. ins r x -> let i = inat r x in 0 <= i < lenR r - 1 /\ mod i 2 = 0 /\ getR r i <= x <= getR r (i + 1)
  predicate okR (r: seqR) = mod (lenR r) 2 = 0 /\ lenR r < 0x100000000000000 /\ (forall i [getR r i]. 0 <= i < lenR r -> 0 <= getR r i <= 0x10FFFF) /\ forall i [getR r i]. 0 <= i < lenR r - 1 -> mod i 2 = 0 -> getR r i <= getR r (i + 1)
  let ghost widened (r0 r1: seqR) (k lo hi: int) : unit
    requires { okR r0 /\ 0 <= lo <= hi <= 0x10FFFF /\ lenR r1 = lenR r0 /\ 0 <= k < lenR r0 - 1 /\ mod k 2 = 0 }
    requires { lo <= getR r0 (k + 1) + 1 /\ getR r0 k <= hi + 1 }
    requires { getR r1 k = (if lo < getR r0 k then lo else getR r0 k) /\ getR r1 (k + 1) = (if hi > getR r0 (k + 1) then hi else getR r0 (k + 1)) }
    requires { forall i. 0 <= i < lenR r0 -> i <> k -> i <> k + 1 -> getR r1 i = getR r0 i }
    ensures { okR r1 /\ forall x. ins r1 x <-> ins r0 x \/ lo <= x <= hi }
  = let lemma ev (i: int) : unit requires { mod i 2 = 0 } ensures { i <> k + 1 /\ i + 1 <> k } = assert { i = 2 * div i 2 /\ k = 2 * div k 2 } in
    let lemma fwd (x: int) : unit requires { ins r0 x } ensures { ins r1 x } = let i = pure { inat r0 x } in ev i; assert { getR r1 i <= x <= getR r1 (i + 1) } in
    let lemma rng (x: int) : unit requires { lo <= x <= hi } ensures { ins r1 x } = assert { getR r1 k <= x <= getR r1 (k + 1) } in
    let lemma bwd (x: int) : unit requires { ins r1 x } ensures { ins r0 x \/ lo <= x <= hi } = let i = pure { inat r1 x } in ev i;
      if i <> k then assert { getR r0 i <= x <= getR r0 (i + 1) } else if pure { getR r0 k <= x <= getR r0 (k + 1) } then assert { ins r0 x } else assert { lo <= x <= hi } in
    assert { forall i. 0 <= i < lenR r1 - 1 -> mod i 2 = 0 -> i <> k -> getR r1 i = getR r0 i /\ getR r1 (i + 1) = getR r0 (i + 1) };
    assert { okR r1 }
  let ghost added (r0: seqR) (lo hi: int) : unit
    requires { okR r0 /\ 0 <= lo <= hi <= 0x10FFFF /\ lenR r0 < 0x100000000000000 - 2 }
    ensures { let r1 = snocR (snocR r0 lo) hi in okR r1 /\ forall x. ins r1 x <-> ins r0 x \/ lo <= x <= hi }
  = let r1 = snocR (snocR r0 lo) hi in let n = pure { lenR r0 } in
    assert { lenR r1 = n + 2 /\ getR r1 n = lo /\ getR r1 (n + 1) = hi /\ forall i. 0 <= i < n -> getR r1 i = getR r0 i };
    let lemma ev (i: int) : unit requires { mod i 2 = 0 /\ i < n + 1 } ensures { i < n - 1 \/ i = n } = assert { i = 2 * div i 2 /\ n = 2 * div n 2 } in
    let lemma fwd (x: int) : unit requires { ins r0 x } ensures { ins r1 x } = let i = pure { inat r0 x } in ev i; assert { getR r1 i <= x <= getR r1 (i + 1) } in
    let lemma rng (x: int) : unit requires { lo <= x <= hi } ensures { ins r1 x } = assert { getR r1 n <= x <= getR r1 (n + 1) } in
    let lemma bwd (x: int) : unit requires { ins r1 x } ensures { ins r0 x \/ lo <= x <= hi } = let i = pure { inat r1 x } in ev i; if i < n - 1 then assert { getR r0 i <= x <= getR r0 (i + 1) } in
    assert { okR r1 }
  (* simple case folding: the orbit of c under unicode.SimpleFold; its facts are checked for every code point by the harness *)
  function sfold (r: int) : int
  function orb (c k: int) : int
  function per (c: int) : int
  axiom orb_0: forall c [orb c 0]. orb c 0 = c
  axiom orb_s: forall c k [orb c (k + 1)]. 0 <= k -> orb c (k + 1) = sfold (orb c k)
  axiom per_c: forall c [per c]. 0 <= c <= 0x10FFFF -> 1 <= per c <= 4 /\ orb c (per c) = c
  axiom orb_in: forall c k [orb c k]. 0 <= c <= 0x10FFFF -> 0 <= k -> 0 <= orb c k <= 0x10FFFF
  axiom orb_ne: forall c k [orb c k]. 0 <= c <= 0x10FFFF -> 0 < k < per c -> orb c k <> c
  axiom orb_lim: forall c k [orb c k]. 0 <= c <= 0x10FFFF -> 0 <= k -> orb c k = c \/ 0x41 <= c <= 0x1e943 /\ 0x41 <= orb c k <= 0x1e943
  axiom sfold_ascii: forall r [sfold r]. 0 <= r < 128 -> sfold r = (if 65 <= r <= 90 then r + 32 else if r = 107 then 0x212A else if r = 115 then 0x17F else if 97 <= r <= 122 then r - 32 else r)
  axiom sfold_back: sfold 0x212A = 75 /\ sfold 0x17F = 83
  predicate seen (c k x: int)   (* x is among the first k of the orbit of c *)
  function sat (c k x: int) : int
  axiom seen_in: forall c k j [orb c j, seen c k (orb c j)]. 0 <= j < k -> seen c k (orb c j)
  axiom seen_at: forall c k x [seen c k x]. seen c k x -> 0 <= sat c k x < k /\ orb c (sat c k x) = x
  predicate samefold (c x: int) = seen c (per c) x
  let ghost seen_next (c k: int) : unit requires { 0 <= k } ensures { forall x. seen c (k + 1) x <-> seen c k x \/ x = orb c k }
  = let lemma a (x: int) : unit requires { seen c k x } ensures { seen c (k + 1) x } = assert { seen c (k + 1) (orb c (sat c k x)) } in
    let lemma b (x: int) : unit requires { x = orb c k } ensures { seen c (k + 1) x } = assert { seen c (k + 1) (orb c k) } in
    let lemma d (x: int) : unit requires { seen c (k + 1) x } ensures { seen c k x \/ x = orb c k }
      = let j = pure { sat c (k + 1) x } in if j < k then assert { seen c k (orb c j) } in ()
  (* x is equivalent to some code point from lo to hi *)
  predicate folds (lo hi x: int)
  function fat (lo hi x: int) : int
  axiom folds_in: forall lo hi x c [folds lo hi x, seen c (per c) x]. lo <= c <= hi -> samefold c x -> folds lo hi x
  axiom folds_at: forall lo hi x [folds lo hi x]. folds lo hi x -> lo <= fat lo hi x <= hi /\ samefold (fat lo hi x) x
  let ghost refl (c: int) : unit requires { 0 <= c <= 0x10FFFF } ensures { samefold c c /\ forall k. 0 < k -> seen c k c }
  = assert { per c >= 1 }; assert { forall k. 0 < k -> seen c k (orb c 0) }
  let ghost folds_cut (lo m hi: int) : unit requires { 0 <= lo /\ lo <= m + 1 /\ m <= hi <= 0x10FFFF } ensures { forall x. folds lo hi x <-> folds lo m x \/ folds (m + 1) hi x }
  = let lemma a (x: int) : unit requires { folds lo hi x } ensures { folds lo m x \/ folds (m + 1) hi x } = let c = pure { fat lo hi x } in assert { samefold c x }; if c <= m then assert { folds lo m x } else assert { folds (m + 1) hi x } in
    let lemma b (x: int) : unit requires { folds lo m x } ensures { folds lo hi x } = assert { samefold (fat lo m x) x } in
    let lemma d (x: int) : unit requires { folds (m + 1) hi x } ensures { folds lo hi x } = assert { samefold (fat (m + 1) hi x) x } in ()
  let ghost folds_one (c: int) : unit requires { 0 <= c <= 0x10FFFF } ensures { forall x. folds c c x <-> samefold c x }
  = assert { forall x. samefold c x -> folds c c x }
  (* outside 0x41..0x1e943 there is nothing to fold *)
  let ghost folds_out (lo hi: int) : unit requires { 0 <= lo /\ hi <= 0x10FFFF /\ (hi < 0x41 \/ lo > 0x1e943 \/ lo <= 0x41 /\ hi >= 0x1e943) } ensures { forall x. folds lo hi x <-> lo <= x <= hi }
  = let lemma a (x: int) : unit requires { folds lo hi x } ensures { lo <= x <= hi } = let c = pure { fat lo hi x } in assert { orb c (sat c (per c) x) = x } in
    let lemma b (x: int) : unit requires { lo <= x <= hi } ensures { folds lo hi x } = refl x in ()
  (* what an instruction of the rune machine stands for; its shape is that regexp/syntax documents: a single rune, or a sorted list of ranges (InstRune1: of one single range), folded only when single and then the least of its orbit *)
  predicate isrune (i: inst_t) = 7 <= i.in_Op <= 10
  predicate cls (i: inst_t) (x: int) =
    if i.in_Op >= 9 then 0 <= x <= 0x10FFFF
    else if i.in_Op = 8 then x = getR i.in_Rune 0
    else if lenR i.in_Rune = 1 then (if mod i.in_Arg 2 = 1 then samefold (getR i.in_Rune 0) x else x = getR i.in_Rune 0)
    else ins i.in_Rune x
  predicate wfi (i: inst_t) = let r = i.in_Rune in
    (i.in_Op = 8 -> mod i.in_Arg 2 = 0 /\ (lenR r = 1 \/ lenR r = 2 /\ getR r 0 = getR r 1)) /\ (i.in_Op = 7 -> if lenR r = 1 then 0 <= getR r 0 <= 0x10FFFF /\ (mod i.in_Arg 2 = 1 -> not (97 <= getR r 0 <= 122)) else okR r /\ mod i.in_Arg 2 = 0) /\
    (lenR r = 4 -> getR r 1 < getR r 2) /\ (forall j [getR r j]. 0 <= j < lenR r -> 0 <= getR r j <= 0x10FFFF) /\ lenR r < 0x40000000
  (* the bytes an instruction of the byte machine takes *)
  function upc (f: bool) (c: int) : int = if f && 97 <= c <= 122 then c - 32 else c
  predicate takes (j: inst_t) (c: int) = mod (div j.in_Arg 256) 256 <= upc (mod (div j.in_Arg 65536) 2 = 1) c <= mod j.in_Arg 256
  predicate onebyte (i j: inst_t) = isrune i /\ j.in_Op = 135 /\ j.in_Out = i.in_Out /\ (forall x. cls i x -> 0 <= x < 128) /\ forall c. 0 <= c <= 255 -> takes j c <-> cls i c
  (* s is the encoding of a code point the instruction stands for *)
  predicate encs (i: inst_t) (s: seqB) = let x = rv s in cls i x /\ enc s x x
  (* the alternatives built for instruction pc, when the program was q, are still there in p *)
  predicate kept (q p: seq_inst_t) (pc b n0: int) = 0 <= pc < n0 <= b <= len_inst_t q <= len_inst_t p /\ get_inst_t p pc = get_inst_t q pc /\
    forall x [get_inst_t p x | get_inst_t q x]. b <= x < len_inst_t q -> get_inst_t p x = get_inst_t q x
  predicate branch (i: inst_t) (q: seq_inst_t) (pc b: int) (a nd: seqI) (r: runeBuilder_t) =
    isrune i /\ r.rb_out = i.in_Out /\ wfb q pc b a nd r /\ forall s. acc q b i.in_Out a s <-> encs i s
  (* what stands at pc in the byte program p is right for the instruction i of the rune program *)
  predicate built (i: inst_t) (p: seq_inst_t) (pc n0: int)
  axiom built_same: forall i p pc n0 [built i p pc n0]. 0 <= pc < len_inst_t p -> not isrune i -> get_inst_t p pc = i -> built i p pc n0
  axiom built_byte: forall i p pc n0 [built i p pc n0]. 0 <= pc < len_inst_t p -> onebyte i (get_inst_t p pc) -> built i p pc n0
  val ghost built_branch (i: inst_t) (p: seq_inst_t) (pc n0: int) (q: seq_inst_t) (b: int) (a nd: seqI) (r: runeBuilder_t) : unit
    requires { branch i q pc b a nd r /\ kept q p pc b n0 } ensures { built i p pc n0 }
  function bq (i: inst_t) (p: seq_inst_t) (pc n0: int) : seq_inst_t
  function bb (i: inst_t) (p: seq_inst_t) (pc n0: int) : int
  function ba (i: inst_t) (p: seq_inst_t) (pc n0: int) : seqI
  function bn (i: inst_t) (p: seq_inst_t) (pc n0: int) : seqI
  function brb (i: inst_t) (p: seq_inst_t) (pc n0: int) : runeBuilder_t
  axiom built_at: forall i p pc n0 [built i p pc n0]. built i p pc n0 -> 0 <= pc < len_inst_t p /\ (not isrune i /\ get_inst_t p pc = i \/ onebyte i (get_inst_t p pc) \/
    branch i (bq i p pc n0) pc (bb i p pc n0) (ba i p pc n0) (bn i p pc n0) (brb i p pc n0) /\ kept (bq i p pc n0) p pc (bb i p pc n0) n0)
  let ghost stays (i: inst_t) (p p2: seq_inst_t) (pc pc2 n0: int) : unit
    requires { built i p pc n0 /\ elsewhere p p2 pc2 (len_inst_t p) /\ len_inst_t p <= len_inst_t p2 /\ 0 <= pc < pc2 < n0 <= len_inst_t p }
    ensures { built i p2 pc n0 }
  = let q = pure { bq i p pc n0 } in let b = pure { bb i p pc n0 } in
    if pure { not isrune i /\ get_inst_t p pc = i \/ onebyte i (get_inst_t p pc) } then assert { get_inst_t p2 pc = get_inst_t p pc }
    else begin assert { kept q p2 pc b n0 }; built_branch i p2 pc n0 q b (pure { ba i p pc n0 }) (pure { bn i p pc n0 }) (pure { brb i p pc n0 }) end
  (* the first j/2 ranges of a class *)
  predicate insp (r: seqR) (j x: int)
  function pat (r: seqR) (j x: int) : int
  axiom insp_in: forall r j x i [getR r i, insp r j x]. 0 <= i < j -> mod i 2 = 0 -> getR r i <= x <= getR r (i + 1) -> insp r j x
  axiom insp_at: forall r j x [insp r j x]. insp r j x -> let i = pat r j x in 0 <= i < j /\ mod i 2 = 0 /\ getR r i <= x <= getR r (i + 1)
  let ghost insp_next (r: seqR) (j: int) : unit requires { 0 <= j /\ mod j 2 = 0 } ensures { forall x. insp r (j + 2) x <-> insp r j x \/ getR r j <= x <= getR r (j + 1) }
  = let lemma a (x: int) : unit requires { insp r (j + 2) x } ensures { insp r j x \/ getR r j <= x <= getR r (j + 1) } =
      let i = pure { pat r (j + 2) x } in assert { i = 2 * div i 2 /\ j = 2 * div j 2 }; if i < j then assert { getR r i <= x } else assert { i = j } in
    let lemma b (x: int) : unit requires { insp r j x } ensures { insp r (j + 2) x } = let i = pure { pat r j x } in assert { getR r i <= x } in
    let lemma d (x: int) : unit requires { getR r j <= x <= getR r (j + 1) } ensures { insp r (j + 2) x } = () in ()
  let ghost insp_all (r: seqR) : unit requires { mod (lenR r) 2 = 0 } ensures { forall x. insp r (lenR r) x <-> ins r x }
  = let lemma a (x: int) : unit requires { insp r (lenR r) x } ensures { ins r x } =
      let i = pure { pat r (lenR r) x } in assert { i = 2 * div i 2 /\ lenR r = 2 * div (lenR r) 2 }; assert { getR r i <= x } in
    let lemma b (x: int) : unit requires { ins r x } ensures { insp r (lenR r) x } = let i = pure { inat r x } in assert { getR r i <= x } in ()
endwhy
extern unicode.SimpleFold
  val x_unicode_SimpleFold (r: int) : int ensures { result = sfold r }
extern utf8.EncodeRune inout=0
  val x_utf8_EncodeRune (ref p: seqB) (r: int) : int
    requires { lenB p >= 4 /\ 0 <= r <= 0x10FFFF /\ not surr r }
    writes { p }
    ensures { result = ulen r /\ lenB p = lenB (old p) /\ forall i. 0 <= i < result -> getB p i = ub r i }

func regexp.maxRune
  requires 1 <= n <= 3
  ensures [biggest code point of n bytes] res0 = (if n = 1 then 0x7f else if n = 2 then 0x7ff else 0xffff)
  at entry: pw ();
func regexp.(*runeBuilder).uncachedSuffix
  requires len_inst_t (insts h_prog_t b) <= 0xffffffff /\ not fold /\ b.rb_p <> 0
  ensures [the instruction for the range is added] res0 = len_inst_t (insts (old h_prog_t) b)
  ensures [lo, hi and where it leads] insts h_prog_t b = snoc_inst_t (insts (old h_prog_t) b) { in_Op = 135; in_Out = (if next = 0 then b.rb_out else next); in_Arg = 256 * lo + hi; in_Rune = nilR }
func regexp.(*runeBuilder).suffix
  requires wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ not fold
  requires next = 0 \/ br (insts h_prog_t b) g_base next
  at entry: assume { (* the program has fewer than 2^32 instructions *) len_inst_t (insts h_prog_t b) <= 0xffffffff };
    let ghost p0 = pure { insts h_prog_t b } in wdef p0 (pure { g_base }) (pure { b.rb_out }) (pure { get_map_cacheKey_t_int b.rb_cache { ck_lo = lo; ck_hi = hi; ck_fold = fold; ck_next = next } });
  at return *: let ghost p1 = pure { insts h_prog_t b } in assert { forall x. 0 <= x < len_inst_t p0 -> get_inst_t p1 x = get_inst_t p0 x }; assert { closed p1 g_base b.rb_out }; assert { shape p1 g_pc g_base g_br g_nd b.rb_begin }; assert { cacheok p1 g_base b };
    wdef p1 (pure { g_base }) (pure { b.rb_out }) (pure { len_inst_t p0 });
    assert { keeps p0 p1 g_base }; acc_frame p0 p1 (pure { g_base }) (pure { b.rb_out }) (pure { g_br }); if next <> 0 then word_frame p0 p1 (pure { g_base }) (pure { b.rb_out }) next;
  ensures wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ b.rb_out = (old b).rb_out /\ b.rb_begin = (old b).rb_begin /\ b.rb_p = (old b).rb_p
  ensures elsewhere (insts (old h_prog_t) b) (insts h_prog_t b) g_pc g_base /\ br (insts h_prog_t b) g_base res0
  ensures [the other alternatives stay] forall s. acc (insts h_prog_t b) g_base b.rb_out g_br s <-> acc (insts (old h_prog_t) b) g_base b.rb_out g_br s
  ensures [the instruction takes a byte of the range and leads to next] forall s k [word (insts h_prog_t b) g_base b.rb_out res0 s k]. word (insts h_prog_t b) g_base b.rb_out res0 s k <->
    0 <= k < lenB s /\ lo <= getB s k <= hi /\ (if next = 0 then k + 1 = lenB s else word (insts (old h_prog_t) b) g_base b.rb_out next s (k + 1))
func regexp.(*runeBuilder).addBranch
  writes g_br, g_nd
  requires wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ br (insts h_prog_t b) g_base pc
  at entry: assume { (* the program has fewer than 2^32 instructions *) len_inst_t (insts h_prog_t b) < 0xffffffff };
    let ghost p0 = pure { insts h_prog_t b } in let ghost b0 = b in let ghost a0 = pure { g_br } in
    let ghost nd1 = (if pure { lenI g_br = 0 } then pure { g_nd } else if pure { lenI g_br = 1 } then snocI emptyI (pure { g_pc }) else snocI g_nd (pure { len_inst_t p0 })) in
    g_br <- snocI g_br pc; g_nd <- nd1;
  at exit: let ghost p1 = pure { insts h_prog_t b } in assert { keeps p0 p1 g_base }; acc_frame p0 p1 (pure { g_base }) (pure { b.rb_out }) a0; acc_snoc p1 (pure { g_base }) (pure { b.rb_out }) a0 pc; word_frame p0 p1 (pure { g_base }) (pure { b.rb_out }) pc;
    assert { closed p1 g_base b.rb_out }; assert { shape p1 g_pc g_base g_br g_nd b.rb_begin }; assert { cacheok p1 g_base b };
  at return *: let ghost p1 = pure { insts h_prog_t b } in assert { keeps p0 p1 g_base }; acc_frame p0 p1 (pure { g_base }) (pure { b.rb_out }) a0; acc_snoc p1 (pure { g_base }) (pure { b.rb_out }) a0 pc; word_frame p0 p1 (pure { g_base }) (pure { b.rb_out }) pc;
    assert { closed p1 g_base b.rb_out }; assert { shape p1 g_pc g_base g_br g_nd b.rb_begin }; assert { cacheok p1 g_base b };
  ensures wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ b.rb_out = (old b).rb_out /\ b.rb_p = (old b).rb_p
  ensures elsewhere (insts (old h_prog_t) b) (insts h_prog_t b) g_pc g_base
  ensures [the alternative is added] forall s. acc (insts h_prog_t b) g_base b.rb_out g_br s <-> acc (insts (old h_prog_t) b) g_base b.rb_out (old g_br) s \/ word (insts (old h_prog_t) b) g_base b.rb_out pc s 0
func regexp.(*runeBuilder).addRange
  writes g_br, g_nd
  variant hi - lo
  requires wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ not fold /\ 0 <= lo /\ hi <= 0x10FFFF
  ensures wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ b.rb_out = (old b).rb_out /\ b.rb_p = (old b).rb_p
  ensures elsewhere (insts (old h_prog_t) b) (insts h_prog_t b) g_pc g_base
  ensures [exactly the encodings of the code points of the range are added] forall s. acc (insts h_prog_t b) g_base b.rb_out g_br s <-> acc (insts (old h_prog_t) b) g_base b.rb_out (old g_br) s \/ enc s lo hi
  at entry: let ghost p0 = pure { insts h_prog_t b } in let ghost a0 = pure { g_br } in pw ();
  loop 1
    invariant 1 <= i <= 4 /\ b = b_in /\ h_prog_t = old h_prog_t /\ g_br = old g_br /\ g_nd = old g_nd
    invariant (i > 1 -> hi <= 0x7f \/ lo > 0x7f) /\ (i > 2 -> hi <= 0x7ff \/ lo > 0x7ff) /\ (i > 3 -> hi <= 0xffff \/ lo > 0xffff)
  at loop 1 after: assert { hi < 128 -> forall s. enc s lo hi <-> lenB s = 1 /\ lo <= getB s 0 <= hi };
  at loop 2 begin: let ghost k0 = 6 * i in let ghost m0 = (if i = 1 then 63 else if i = 2 then 4095 else 262143) in assert { pow2 k0 = m0 + 1 }; mask_i32 k0 m0 lo; mask_i32 k0 m0 hi;
    let ghost q0 = pure { m0 + 1 } in let ghost c1 = pure { lo - mod lo q0 + m0 } in let ghost c2 = pure { hi - mod hi q0 } in assert { lo = q0 * div lo q0 + mod lo q0 /\ hi = q0 * div hi q0 + mod hi q0 /\ 0 <= mod lo q0 < q0 /\ 0 <= mod hi q0 < q0 };
    assert { c1 < hi <-> div lo q0 <> div hi q0 }; assert { div lo q0 <> div hi q0 -> lo < c2 };
    assert { c1 < hi -> forall s. enc s lo hi <-> enc s lo c1 \/ enc s (c1 + 1) hi };
  loop 2
    invariant 1 <= i <= 4 /\ b = b_in /\ h_prog_t = old h_prog_t /\ g_br = old g_br /\ g_nd = old g_nd
    invariant (i > 1 -> agree lo hi 64) /\ (i > 2 -> agree lo hi 4096) /\ (i > 3 -> agree lo hi 262144)
  at loop 3 before: boxdef ulo uhi n n;
  at loop 3 begin: boxdef ulo uhi n i;
  at loop 3 after: boxenc ulo uhi n lo hi; assert { forall s. word (insts h_prog_t b) g_base b.rb_out pc s 0 <-> enc s lo hi };
  loop 3
    invariant -1 <= i < n /\ wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ b.rb_out = b_in.rb_out /\ b.rb_p = b_in.rb_p
    invariant g_br = old g_br /\ g_nd = old g_nd /\ elsewhere p0 (insts h_prog_t b) g_pc g_base
    invariant forall s. acc (insts h_prog_t b) g_base b.rb_out g_br s <-> acc p0 g_base b.rb_out a0 s
    invariant if pc = 0 then i = n - 1 else i < n - 1 /\ br (insts h_prog_t b) g_base pc /\ forall s k [word (insts h_prog_t b) g_base b.rb_out pc s k | box ulo uhi n (i + 1) s k]. word (insts h_prog_t b) g_base b.rb_out pc s k <-> 0 <= k /\ box ulo uhi n (i + 1) s k
  at call addBranch#2 after: assert { forall s. acc (insts h_prog_t b) g_base b.rb_out g_br s <-> acc p0 g_base b.rb_out a0 s \/ enc s lo hi };
  at call addBranch#1 after: assert { forall s. acc (insts h_prog_t b) g_base b.rb_out g_br s <-> acc p0 g_base b.rb_out a0 s \/ enc s lo hi };

func regexp.appendRange
  requires okR r /\ 0 <= lo <= hi <= 0x10FFFF /\ lenR r < 0x100000000000000 - 2
  ensures okR res0 /\ lenR res0 <= lenR (old r) + 2
  ensures [exactly the range is added] forall x. ins res0 x <-> ins (old r) x \/ lo <= x <= hi
  at entry: let ghost r0 = r in added r0 lo hi;
  at return 1: widened r0 r (n - i) lo hi;
  loop 1
    invariant 2 <= i <= 6 /\ mod i 2 = 0 /\ r = r0
func regexp.appendFoldedRange
  requires okR r /\ 0 <= lo <= hi <= 0x10FFFF /\ lenR r < 0x80000000000000
  ensures okR res0 /\ lenR res0 <= lenR (old r) + 0x1000000
  ensures [exactly the code points equivalent to one of the range are added] forall x. ins res0 x <-> ins (old r) x \/ folds lo hi x
  at entry: let ghost r0 = r in if (lo <= 0x41 && hi >= 0x1e943) || hi < 0x41 || lo > 0x1e943 then folds_out lo hi;
    if lo < 0x41 && 0x41 <= hi then begin folds_cut lo 0x40 hi; folds_out lo 0x40 end;
    if lo <= 0x1e943 && 0x1e943 < hi then begin folds_out 0x1e944 hi; folds_cut (if lo < 0x41 then 0x41 else lo) 0x1e943 hi end;
  at loop 1 before: let ghost n0 = pure { lenR r } in assert { forall x. ins r x <-> ins r0 x \/ folds lo_in (lo - 1) x \/ folds (hi + 1) hi_in x };
  loop 1
    invariant okR r /\ lo <= c <= hi + 1 /\ 0x41 <= lo <= hi <= 0x1e943 /\ lenR r <= n0 + 8 * (c - lo)
    invariant forall x. ins r x <-> ins r0 x \/ folds lo_in (lo - 1) x \/ folds (hi + 1) hi_in x \/ folds lo (c - 1) x
  at loop 1 begin: let ghost r1 = r in let ghost ref k = 1 in assert { orb c 0 = c /\ orb c (0 + 1) = sfold (orb c 0) }; seen_next c 0; folds_cut lo (c - 1) c; folds_one c;
  loop 2
    invariant okR r /\ lo <= c <= hi /\ 1 <= k <= per c /\ f = orb c k /\ lenR r <= lenR r1 + 2 * k
    invariant forall x. ins r x <-> ins r1 x \/ seen c k x
    variant per c - k
  at loop 2 begin: assert { orb c (k + 1) = sfold (orb c k) }; seen_next c k;
  at loop 2 end: k <- k + 1;
func regexp.(*runeBuilder).init
  requires p <> 0 /\ (let q = (get h_prog_t p).pg_Inst in 0 <= begin_ < len_inst_t q /\ 0 <= out < len_inst_t q)
  writes g_pc, g_base, g_br, g_nd
  at entry: g_pc <- begin_; g_base <- pure { len_inst_t (get h_prog_t p).pg_Inst }; g_br <- emptyI; g_nd <- emptyI;
  ensures wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ b.rb_out = out /\ b.rb_p = p
  ensures let q = (get (old h_prog_t) p).pg_Inst in g_pc = begin_ /\ g_base = len_inst_t q = len_inst_t (insts h_prog_t b) /\ g_br = emptyI /\ elsewhere q (insts h_prog_t b) g_pc g_base
  loop 1
    invariant not (isnil_map_cacheKey_t_int b.rb_cache) /\ (forall k [mem_map_cacheKey_t_int b.rb_cache k]. mem_map_cacheKey_t_int b.rb_cache k -> mem_map_cacheKey_t_int rg1 k /\ get vis1 k = false)
func regexp.asciiFold
  requires 0 <= r <= 0x10FFFF
  ensures res0 -> r < 128 /\ forall x. samefold r x -> x < 128 /\ (x = r \/ x = sfold r /\ sfold x = r)
  at return *: assert { orb r 0 = r /\ orb r (0 + 1) = sfold (orb r 0) /\ orb r (1 + 1) = sfold (orb r 1) };
    assert { sfold r = r -> per r <= 1 }; assert { sfold (sfold r) = r -> per r <= 2 };
    assert { per r <= 1 -> forall x. samefold r x -> x = r }; assert { per r <= 2 -> forall x. samefold r x -> x = r \/ x = sfold r };
func regexp.oneByteRange
  requires wfi i
  ensures [the one byte stands for the same code points] ok -> isrune i /\ forall x. cls i x -> 0 <= x < 128
  ensures [the byte range takes exactly them] ok -> forall c. 0 <= c <= 255 -> lo <= upc fold c <= hi <-> cls i c
func regexp.toByteProg
  requires prog <> 0 /\ (let p = (get h_prog_t prog).pg_Inst in len_inst_t p < 0x40000000 /\ forall x [get_inst_t p x]. 0 <= x < len_inst_t p -> let i = get_inst_t p x in isrune i -> wfi i /\ 0 <= i.in_Out < len_inst_t p)
  writes g_pc, g_base, g_br, g_nd
  ensures [every instruction stands for exactly the encodings of its code points] let p = (get (old h_prog_t) prog).pg_Inst in forall x [get_inst_t p x]. 0 <= x < len_inst_t p -> built (get_inst_t p x) (get h_prog_t prog).pg_Inst x (len_inst_t p)
  at entry: let ghost p0 = pure { (get h_prog_t prog).pg_Inst } in let ghost n0 = pure { len_inst_t p0 } in
  loop 1
    invariant let p = (get h_prog_t prog).pg_Inst in n0 <= len_inst_t p /\ (forall x [get_inst_t p x | get_inst_t p0 x]. ix1 <= x < n0 -> get_inst_t p x = get_inst_t p0 x) /\
      forall x [get_inst_t p0 x]. 0 <= x < ix1 -> built (get_inst_t p0 x) p x n0
  at loop 1 begin: let ghost p1 = pure { (get h_prog_t prog).pg_Inst } in let ghost i0 = pure { get_inst_t p0 ix1 } in assert { get_inst_t p1 ix1 = i0 }; assert { isrune i0 -> wfi i0 /\ 0 <= i0.in_Out < n0 }; assert { mod (mod i0.in_Arg 65536) 2 = mod i0.in_Arg 2 };
  at call =i.Arg#1 after: let ghost j1 = pure { get_inst_t (get h_prog_t prog).pg_Inst ix1 } in assert { j1.in_Op = 135 /\ j1.in_Out = i0.in_Out /\ div j1.in_Arg 256 = lo /\ mod j1.in_Arg 256 = hi /\ div j1.in_Arg 65536 = 0 };
    assert { fold = false -> forall c. takes j1 c <-> lo <= upc fold c <= hi }; assert { fold = false -> onebyte i0 j1 };
  at call =i.Arg#2 after: let ghost j2 = pure { get_inst_t (get h_prog_t prog).pg_Inst ix1 } in assert { j2.in_Op = 135 /\ j2.in_Out = i0.in_Out /\ j2.in_Arg = 65536 + 256 * lo + hi };
    assert { mod (div j2.in_Arg 256) 256 = lo /\ mod j2.in_Arg 256 = hi /\ div j2.in_Arg 65536 = 1 };
    assert { forall c. takes j2 c <-> lo <= upc fold c <= hi }; assert { onebyte i0 j2 };
  at call init#* before: assert { get_inst_t (get h_prog_t prog).pg_Inst ix1 = i0 };
  at call init#* after: assert { forall s. not acc (insts h_prog_t b) g_base b.rb_out g_br s }; assert { elsewhere p1 (insts h_prog_t b) ix1 g_base };
  loop 2
    invariant 0 <= j /\ mod j 2 = 0 /\ okR rr /\ lenR rr <= 0x800000 * j
  at call appendFoldedRange#1 after: assert { forall x. ins rr x <-> samefold (getR r 0) x }; 
  at call appendFoldedRange#1 before: assert { forall x. not ins rr x }; folds_one (pure { getR r 0 });
  at loop 3 before: assert { forall x. cls i0 x <-> ins r x }; insp_all r; assert { okR r };
  loop 3
    invariant 0 <= j <= lenR r /\ mod j 2 = 0 /\ wfb (insts h_prog_t b) g_pc g_base g_br g_nd b /\ b.rb_p = prog /\ b.rb_out = i0.in_Out /\ g_pc = ix1 /\ g_base = len_inst_t p1 /\ elsewhere p1 (insts h_prog_t b) ix1 g_base
    invariant forall s. acc (insts h_prog_t b) g_base b.rb_out g_br s <-> let x = rv s in insp r j x /\ enc s x x
  at loop 3 begin: insp_next r j;
  at loop 3 after: let ghost q = pure { insts h_prog_t b } in assert { wfb q ix1 g_base g_br g_nd b /\ b.rb_out = i0.in_Out }; assert { forall s. acc q g_base i0.in_Out g_br s <-> encs i0 s }; built_branch i0 q ix1 n0 q (pure { g_base }) (pure { g_br }) (pure { g_nd }) b;
  at call addRange#1 after: let ghost q = pure { insts h_prog_t b } in assert { wfb q ix1 g_base g_br g_nd b /\ b.rb_out = i0.in_Out }; assert { forall s. acc q g_base i0.in_Out g_br s <-> encs i0 s }; built_branch i0 q ix1 n0 q (pure { g_base }) (pure { g_br }) (pure { g_nd }) b;
  at call addRange#3 after: let ghost q = pure { insts h_prog_t b } in assert { wfb q ix1 g_base g_br g_nd b /\ b.rb_out = i0.in_Out }; assert { forall s. acc q g_base i0.in_Out g_br s <-> encs i0 s }; built_branch i0 q ix1 n0 q (pure { g_base }) (pure { g_br }) (pure { g_nd }) b;
  at loop 1 end: let ghost p2 = pure { (get h_prog_t prog).pg_Inst } in
    assert { elsewhere p1 p2 ix1 (len_inst_t p1) }; assert { len_inst_t p1 <= len_inst_t p2 }; let ghost c1 = pure { ix1 } in assert { forall x [get_inst_t p0 x]. 0 <= x < c1 -> built (get_inst_t p0 x) p1 x n0 }; 
    assert { built i0 p2 ix1 n0 };
    let lemma st (x: int) : unit requires { 0 <= x < c1 } ensures { built (get_inst_t p0 x) p2 x n0 } = stays (pure { get_inst_t p0 x }) p1 p2 x c1 n0 in
