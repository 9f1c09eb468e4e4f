# C03: the posting-list coder.
include buf.spec
unit delta
package index
use index.deltaReader index.deltaWriter
const Index
drop Index.path Index.pathData Index.numPath Index.nameData Index.nameIndex mmapData.f
prefix deltaReader dr_
prefix deltaWriter dw_
prefix Index ix_
prefix mmapData md_
extern index.(*Index).corrupt forbid
extern bits.Len64
  val x_bits_Len64 (x: int) : int
    ensures { x = 0 -> result = 0 } ensures { x > 0 -> result = log2 x + 1 } ensures { 0 <= result <= 64 }
extern bits.TrailingZeros64
  val x_bits_TrailingZeros64 (x: int) : int
    ensures { x = 0 -> result = 64 } ensures { x > 0 -> 0 <= result < 64 /\ mod x (pow2 result) = 0 /\ mod (div x (pow2 result)) 2 = 1 }
extern binary.PutUvarint inout=0
  val x_binary_PutUvarint (ref b: seqB) (x: int) : int
    writes { b }
    requires { [@expl:room for a varint] lenB b >= 10 }
    ensures { lenB b = lenB (old b) /\ result = lenB (uvenc x) /\ subB b 0 result = uvenc x }
extern binary.Uvarint
  val x_binary_Uvarint (b: seqB) : (int, int)
    ensures { let (v, n) = result in n <= lenB b /\ forall x. 0 <= x < 18446744073709551616 /\ isprefix (uvenc x) b -> v = x /\ n = lenB (uvenc x) }

why
  predicate isprefix (p s: seqB) = lenB p <= lenB s /\ forall i [getB s i|getB p i]. 0 <= i < lenB p -> getB s i = getB p i
  let rec ghost pow2_add (a b: int) : unit
    requires { 0 <= a /\ 0 <= b } ensures { pow2 (a + b) = pow2 a * pow2 b } variant { a }
  = if a > 0 then begin pow2_add (a-1) b; assert { pow2 ((a-1)+1) = 2 * pow2 (a-1) }; assert { pow2 ((a-1+b)+1) = 2 * pow2 (a-1+b) } end
  function log2 (x: int) : int
  axiom lg_def: forall x [log2 x]. 0 < x -> 0 <= log2 x /\ pow2 (log2 x) <= x < pow2 (log2 x + 1)
  (* the bytes as one number, the first byte lowest *)
  function le (s: seqB) : int
  axiom le_0: forall s [le s]. lenB s = 0 -> le s = 0
  axiom le_s: forall s c [le (snocB s c)]. le (snocB s c) = le s + c * pow2 (8 * lenB s)
  axiom pow2_8: pow2 8 = 256
  let ghost wrote_byte (h: map int buffer_t) (d: map int seqB) (h1: map int buffer_t) (d1: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (b: int) (x: seqB) (c: int) : unit
    requires { 0 <= c < 256 /\ wrote h d h1 d1 b x /\ wrote h1 d1 h2 d2 b (snocB emptyB c) } ensures { wrote h d h2 d2 b (snocB x c) }
  = wrote_more h d h1 d1 h2 d2 b x (snocB emptyB c);
    assert { eqB (snocB x c) (catB x (snocB emptyB c)) }
  let ghost low8 (b n: int) : unit
    requires { 8 <= n /\ 0 <= b < pow2 n }
    ensures { 0 <= div b 256 < pow2 (n-8) /\ b = 256 * div b 256 + mod b 256 /\ 0 <= mod b 256 < 256 }
  = pow2_add 8 (n-8)
  let ghost le_next (y: seqB) (c r: int) : unit
    requires { 0 <= c < 256 }
    ensures { le (snocB y c) + pow2 (8 * lenB y + 8) * r = le y + pow2 (8 * lenB y) * (c + 256 * r) }
  = pow2_add (8 * lenB y) 8;
    let p = pure { pow2 (8 * lenB y) } in
    assert { pow2 (8 * lenB y + 8) = 256 * p };
    assert { le (snocB y c) = le y + c * p };
    assert { 256 * p * r = p * (256 * r) };
    assert { p * (c + 256 * r) = p * c + p * (256 * r) }
  (* the gamma code of x as a number of 2 log2 x + 1 bits, first bit lowest: log2 x zeros, a one, the log2 x low bits of x *)
  function gval (x: int) : int = pow2 (log2 x) + pow2 (log2 x + 1) * (x - pow2 (log2 x))
  function glen (x: int) : int = 2 * log2 x + 1
  (* the version 2 renumbering, which keeps the code word of sixteen for zero *)
  function renum (x: int) : int = if x = 0 then 16 else if x >= 16 then x + 1 else x
  (* bits written beyond the last whole byte *)
  predicate wpend (w: deltaWriter_t) = 0 <= w.dw_nb < 8 /\ 0 <= w.dw_b < pow2 w.dw_nb
  let rec ghost le_cat (x y: seqB) : unit
    ensures { le (catB x y) = le x + pow2 (8 * lenB x) * le y } variant { lenB y }
  = let n = plenB y in
    if n > 0 then begin
      let z = subB y 0 (n-1) in let c = idxB y (n-1) in
      le_cat x z;
      assert { eqB y (snocB z c) }; assert { eqB (catB x y) (snocB (catB x z) c) };
      assert { le y = le z + c * pow2 (8 * lenB z) };
      assert { le (catB x y) = le (catB x z) + c * pow2 (8 * lenB x + 8 * lenB z) };
      pow2_add (8 * lenB x) (8 * lenB z);
      assert { pow2 (8 * lenB x) * (c * pow2 (8 * lenB z)) = c * (pow2 (8 * lenB x) * pow2 (8 * lenB z)) };
      assert { pow2 (8 * lenB x) * (le z + c * pow2 (8 * lenB z)) = pow2 (8 * lenB x) * le z + pow2 (8 * lenB x) * (c * pow2 (8 * lenB z)) }
    end else begin assert { eqB (catB x y) x }; assert { le y = 0 } end
  (* the bits written so far form the l-bit number v: whole bytes y, then the n bits b *)
  predicate sofar (y: seqB) (b n v l: int) = 8 * lenB y + n = l /\ le y + pow2 (8 * lenB y) * b = v
  let ghost sofar_flush (y: seqB) (b n v l: int) (z: seqB) (b2 n2: int) : unit
    requires { sofar y b n v l /\ sofar z b2 n2 b n /\ 0 <= n2 } ensures { sofar (catB y z) b2 n2 v l }
  = le_cat y z; pow2_add (8 * lenB y) (8 * lenB z);
    assert { pow2 (8 * lenB y) * b = pow2 (8 * lenB y) * le z + pow2 (8 * lenB y) * (pow2 (8 * lenB z) * b2) };
    assert { pow2 (8 * lenB y) * (pow2 (8 * lenB z) * b2) = pow2 (8 * lenB (catB y z)) * b2 }
  let ghost sofar_add (y: seqB) (b n v l: int) (c m: int) : unit
    requires { sofar y b n v l /\ 0 <= n /\ 0 <= m } ensures { sofar y (b + c * pow2 n) (n + m) (v + c * pow2 l) (l + m) }
  = pow2_add (8 * lenB y) n;
    assert { pow2 (8 * lenB y) * (c * pow2 n) = c * pow2 l };
    assert { pow2 (8 * lenB y) * (b + c * pow2 n) = pow2 (8 * lenB y) * b + pow2 (8 * lenB y) * (c * pow2 n) }
  let ghost below (b n c m: int) : unit
    requires { 0 <= b < pow2 n /\ 0 <= c < pow2 m /\ 0 <= n /\ 0 <= m }
    ensures { 0 <= b + c * pow2 n < pow2 (n + m) /\ 0 <= c * pow2 n < pow2 (n + m) /\ mod (c * pow2 n) (pow2 n) = 0 }
  = pow2_add n m;
    assert { (c + 1) * pow2 n <= pow2 m * pow2 n };
    assert { c * pow2 n >= 0 };
    assert { mod (c * pow2 n) (pow2 n) = 0 }
  let rec ghost pow2_mono (a b: int) : unit
    requires { 0 <= a <= b } ensures { pow2 a <= pow2 b } variant { b }
  = if a < b then begin pow2_mono a (b-1); assert { pow2 ((b-1)+1) = 2 * pow2 (b-1) } end
  let ghost combine (v x pl b a p m r: int) : unit
    requires { v = b + a + m * p /\ pl = p * 4294967296 /\ r = m + 4294967296 * x } ensures { v + x * pl = b + a + p * r }
  = assert { x * pl = p * (4294967296 * x) }; assert { p * r = p * m + p * (4294967296 * x) }
  let rec ghost le_pos (s: seqB) : unit
    ensures { 0 <= le s } variant { lenB s }
  = let n = plenB s in if n > 0 then begin le_pos (subB s 0 (n-1)); assert { eqB s (snocB (subB s 0 (n-1)) (getB s (n-1))) };
      assert { le s = le (subB s 0 (n-1)) + getB s (n-1) * pow2 (8 * (n-1)) }; assert { getB s (n-1) * pow2 (8 * (n-1)) >= 0 } end
  let rec ghost le_uncons (s: seqB) : unit
    requires { lenB s > 0 } ensures { le s = getB s 0 + 256 * le (subB s 1 (lenB s)) } variant { lenB s }
  = let n = plenB s in let c = idxB s (n-1) in let z = subB s 0 (n-1) in
    assert { eqB s (snocB z c) }; assert { le s = le z + c * pow2 (8 * (n-1)) };
    if n = 1 then begin assert { le z = 0 /\ le (subB s 1 (lenB s)) = 0 }; assert { pow2 0 = 1 } end
    else begin le_uncons z; let t = subB z 1 (n-1) in
      assert { eqB (subB s 1 (lenB s)) (snocB t c) }; assert { le (subB s 1 (lenB s)) = le t + c * pow2 (8 * (n-2)) };
      pow2_add 8 (8 * (n-2)); assert { 256 * (c * pow2 (8 * (n-2))) = c * pow2 (8 * (n-1)) } end
  let ghost cancel (p x y: int) : unit
    requires { p > 0 /\ p * x = p * y } ensures { x = y } = ()
  let ghost gap (nb m l q: int) : unit
    requires { 0 <= nb /\ 0 <= m /\ pow2 nb * l = pow2 m * (1 + 2 * q) } ensures { nb <= m /\ l = pow2 (m - nb) * (1 + 2 * q) }
  = if nb > m then begin pow2_add m (nb - m); assert { pow2 (nb - m - 1 + 1) = 2 * pow2 (nb - m - 1) };
        assert { pow2 nb * l = pow2 m * (2 * (pow2 (nb - m - 1) * l)) }; cancel (pure { pow2 m }) (pure { 2 * (pow2 (nb - m - 1) * l) }) (1 + 2 * q); assert { false } end
    else begin pow2_add nb (m - nb); assert { pow2 nb * l = pow2 nb * (pow2 (m - nb) * (1 + 2 * q)) }; cancel (pure { pow2 nb }) l (pure { pow2 (m - nb) * (1 + 2 * q) }) end
  let ghost odd_eq (a b u v: int) : unit
    requires { 0 <= a /\ 0 <= b /\ pow2 a * (1 + 2 * u) = pow2 b * (1 + 2 * v) } ensures { a = b /\ u = v }
  = gap a b (1 + 2 * u) v; gap b a (1 + 2 * v) u; assert { pow2 0 = 1 }
  let ghost tzstep (b nb l m q tz: int) : unit
    requires { 0 < b < pow2 nb /\ 0 <= nb /\ 0 <= m /\ b + pow2 nb * l = pow2 m * (1 + 2 * q) }
    requires { 0 <= tz /\ mod b (pow2 tz) = 0 /\ mod (div b (pow2 tz)) 2 = 1 }
    ensures { tz < nb /\ tz = m /\ div b (pow2 (tz+1)) + pow2 (nb - tz - 1) * l = q /\ 0 <= div b (pow2 (tz+1)) < pow2 (nb - tz - 1) }
  = let p = pure { pow2 tz } in
    let c = pure { div b p } in
    assert { b = p * c };
    assert { c >= 1 };
    if pure { tz >= nb } then begin pow2_mono nb tz; assert { p * c >= p }; assert { false } end;
    let e = pure { div c 2 } in
    assert { c = 1 + 2 * e };
    assert { pow2 (tz + 1) = 2 * p };
    assert { b = e * (2 * p) + p };
    assert { div b (2 * p) = e };
    pow2_add (tz + 1) (nb - tz - 1);
    let h = pure { pow2 (nb - tz - 1) } in
    assert { pow2 nb = 2 * p * h };
    assert { pow2 nb * l = p * (2 * (h * l)) };
    assert { b + pow2 nb * l = p * (1 + 2 * (e + h * l)) };
    odd_eq tz m (pure { e + h * l }) q;
    assert { e < h by e >= h -> 2 * p * e >= 2 * p * h }
  let ghost divuniq (p a b c d: int) : unit
    requires { 0 <= a < p /\ 0 <= c < p /\ a + p * b = c + p * d } ensures { a = c /\ b = d }
  = if b > d then begin assert { p * (b - d) >= p }; assert { false } end;
    if b < d then begin assert { p * (d - b) >= p }; assert { false } end
  let ghost take (x s b n l q: int) : unit
    requires { 0 <= s /\ 0 <= n /\ q = x + pow2 s * (b + pow2 n * l) } ensures { q = (x + b * pow2 s) + pow2 (s + n) * l }
  = pow2_add s n; assert { pow2 s * (b + pow2 n * l) = b * pow2 s + pow2 s * pow2 n * l }
  let ghost splitlow (b n g l: int) : unit
    requires { 0 <= g <= n /\ 0 <= b < pow2 n } ensures { 0 <= mod b (pow2 g) < pow2 g /\ 0 <= div b (pow2 g) < pow2 (n - g) }
    ensures { b + pow2 n * l = mod b (pow2 g) + pow2 g * (div b (pow2 g) + pow2 (n - g) * l) }
  = pow2_add g (n - g); let p = pure { pow2 g } in let e = pure { div b p } in
    assert { b = p * e + mod b p };
    assert { pow2 n * l = p * (pow2 (n - g) * l) };
    assert { e < pow2 (n - g) by e >= pow2 (n - g) -> p * e >= p * pow2 (n - g) }
  (* the number under the reader *)
  function rval (r: deltaReader_t) : int = r.dr_b + pow2 r.dr_nb * le r.dr_d
  function rlen (r: deltaReader_t) : int = r.dr_nb + 8 * lenB r.dr_d
  predicate rok (r: deltaReader_t) = 0 <= r.dr_nb < 8 /\ 0 <= r.dr_b < pow2 r.dr_nb
  (* the next code is that of x, and the number v of the bits that follow it *)
  predicate upcoming (r: deltaReader_t) (x v: int) = 0 < x < 9223372036854775808 /\ 0 <= v /\ rval r = gval x + pow2 (glen x) * v /\ glen x <= rlen r
  axiom pow2_32: pow2 32 = 4294967296
  axiom pow2_63: pow2 63 = 9223372036854775808
  axiom pow2_64: pow2 64 = 18446744073709551616
endwhy

why RoundTrip
  (* the codes of xs(0), ..., xs(k-1) as one number of nl bits *)
  function nv (xs: int -> int) (k: int) : int
  function nl (xs: int -> int) (k: int) : int
  axiom nv_0: forall xs. nv xs 0 = 0 /\ nl xs 0 = 0
  axiom nv_s: forall xs k. 0 <= k -> nl xs (k+1) = nl xs k + glen (renum (xs k)) /\ nv xs (k+1) = nv xs k + pow2 (nl xs k) * gval (renum (xs k))
  predicate inrange (xs: int -> int) (n: int) = forall k. 0 <= k < n -> 0 <= xs k < 9223372036854775807
  let ghost dist (a g b: int) : unit ensures { a * (g + b) = a * g + a * b } = ()
  let ghost assoc (a b c: int) : unit ensures { a * (b * c) = (a * b) * c } = ()
  let ghost distm (a g m v am: int) : unit requires { am = a * m } ensures { a * (g + m * v) = a * g + am * v } = ()
  let ghost dist3 (a g m v am w w1 n: int) : unit requires { am = a * m /\ w1 = w + a * g /\ n = w1 + am * v } ensures { n = w + a * (g + m * v) } = ()
  let ghost dist4 (a g m v am w w1 n rv: int) : unit requires { am = a * m /\ w1 = w + a * g /\ rv = g + m * v /\ w + a * rv = n } ensures { n = w1 + am * v }
  = assert { a * rv = a * g + a * (m * v) }; assert { a * (m * v) = (a * m) * v }
  let ghost gval_pos (x: int) : unit
    requires { 0 < x } ensures { 0 <= gval x /\ 1 <= glen x }
  = assert { pow2 (log2 x + 1) * (x - pow2 (log2 x)) >= 0 }
  let rec ghost nl_pos (xs: int -> int) (k: int) : unit
    requires { 0 <= k /\ inrange xs k } ensures { 0 <= nl xs k } variant { k }
  = if k > 0 then begin nl_pos xs (k-1); gval_pos (pure { renum (xs (k-1)) }); assert { nl xs ((k-1)+1) = nl xs (k-1) + glen (renum (xs (k-1))) } end
  (* writing: what Write appends for xs(k) extends the codes of the first k numbers to those of the first k+1 *)
  let ghost written_one (xs: int -> int) (k: int) (y: seqB) (b n: int) (z: seqB) (b2 n2: int) : unit
    requires { 0 <= k /\ inrange xs (k+1) /\ 0 <= n /\ 0 <= n2 }
    requires { sofar y b n (nv xs k) (nl xs k) }
    requires { sofar z b2 n2 (b + pow2 n * gval (renum (xs k))) (n + glen (renum (xs k))) }
    ensures { sofar (catB y z) b2 n2 (nv xs (k+1)) (nl xs (k+1)) }
  = let g = pure { gval (renum (xs k)) } in let m = pure { glen (renum (xs k)) } in
    gval_pos (pure { renum (xs k) });
    sofar_add y b n (pure { nv xs k }) (pure { nl xs k }) g m;
    assert { nv xs (k+1) = nv xs k + g * pow2 (nl xs k) /\ nl xs (k+1) = nl xs k + m };
    sofar_flush y (b + g * pure { pow2 n }) (n + m) (pure { nv xs (k+1) }) (pure { nl xs (k+1) }) z b2 n2
  (* flushing: the list is in whole bytes *)
  let ghost written_all (xs: int -> int) (n: int) (y: seqB) (b nb: int) : unit
    requires { 0 <= n /\ inrange xs n /\ 0 <= nb < 8 /\ 0 <= b < pow2 nb /\ sofar y b nb (nv xs n) (nl xs n) }
    ensures { let z = catB y (if nb = 0 then emptyB else snocB emptyB b) in le z = nv xs n /\ 8 * lenB z - 8 < nl xs n <= 8 * lenB z }
  = assert { pow2 0 = 1 }; pow2_mono nb 8;
    if nb = 0 then assert { eqB (catB y emptyB) y } else begin assert { eqB (catB y (snocB emptyB b)) (snocB y b) }; assert { le (snocB y b) = le y + b * pow2 (8 * lenB y) } end
  let rec ghost rest_value (xs: int -> int) (k n: int) : int
    requires { 0 <= k <= n /\ inrange xs n }
    ensures { 0 <= result } ensures { nv xs n = nv xs k + pow2 (nl xs k) * result } ensures { nl xs k <= nl xs n } variant { n - k }
  = nl_pos xs k;
    if k = n then begin assert { pow2 (nl xs k) * 0 = 0 }; 0 end else begin
      let t = rest_value xs (k+1) n in
      let g = pure { gval (renum (xs k)) } in let m = pure { glen (renum (xs k)) } in
      gval_pos (pure { renum (xs k) }); pow2_add (pure { nl xs k }) m;
      assert { pow2 m * t >= 0 };
      assert { nl xs (k+1) = nl xs k + m };
      assert { nv xs (k+1) = nv xs k + pow2 (nl xs k) * g };
      let res = pure { g + pow2 m * t } in
      dist3 (pure { pow2 (nl xs k) }) g (pure { pow2 m }) t (pure { pow2 (nl xs (k+1)) }) (pure { nv xs k }) (pure { nv xs (k+1) }) (pure { nv xs n });
      assert { nv xs n = nv xs k + pow2 (nl xs k) * res };
      assert { res >= 0 };
      assert { nl xs k <= nl xs n };
      res
    end
  (* reader r stands at the code of xs(k) in data d *)
  predicate standing (r: deltaReader_t) (d: seqB) (xs: int -> int) (k: int) =
    rok r /\ nv xs k + pow2 (nl xs k) * rval r = le d /\ nl xs k + rlen r = 8 * lenB d /\
    lenB r.dr_d <= lenB d /\ r.dr_d = subB d (lenB d - lenB r.dr_d) (lenB d)
  let ghost standing_start (r: deltaReader_t) (d: seqB) (xs: int -> int) : unit
    requires { r.dr_d = d /\ r.dr_b = 0 /\ r.dr_nb = 0 } ensures { standing r d xs 0 }
  = assert { pow2 0 = 1 }; assert { eqB d (subB d 0 (lenB d)) }
  (* data that begins with the codes of n numbers: the next one is upcoming *)
  let ghost standing_next (r: deltaReader_t) (z tl: seqB) (xs: int -> int) (k n: int) : int
    requires { 0 <= k < n /\ inrange xs n /\ le z = nv xs n /\ nl xs n <= 8 * lenB z }
    requires { standing r (catB z tl) xs k }
    ensures { upcoming r (renum (xs k)) result }
  = let t = rest_value xs (k+1) n in nl_pos xs k; nl_pos xs (k+1);
    let g = pure { gval (renum (xs k)) } in let m = pure { glen (renum (xs k)) } in let a = pure { nl xs k } in
    gval_pos (pure { renum (xs k) });
    le_cat z tl; le_pos tl;
    let h = pure { 8 * lenB z - nl xs (k+1) } in
    pow2_add (pure { nl xs (k+1) }) h; pow2_add a m;
    let v = pure { t + pow2 h * le tl } in
    assert { pow2 (8 * lenB z) = pow2 (nl xs (k+1)) * pow2 h };
    distm (pure { pow2 (nl xs (k+1)) }) t (pure { pow2 h }) (pure { le tl }) (pure { pow2 (8 * lenB z) });
    assert { le (catB z tl) = nv xs (k+1) + pow2 (nl xs (k+1)) * v };
    distm (pure { pow2 a }) g (pure { pow2 m }) v (pure { pow2 (nl xs (k+1)) });
    assert { pow2 a * rval r = pow2 a * (g + pow2 m * v) };
    cancel (pure { pow2 a }) (pure { rval r }) (pure { g + pow2 m * v });
    assert { pow2 h * le tl >= 0 };
    v
  let ghost standing_step (r r2: deltaReader_t) (d: seqB) (xs: int -> int) (k v: int) : unit
    requires { 0 <= k /\ inrange xs (k+1) /\ standing r d xs k /\ upcoming r (renum (xs k)) v }
    requires { rok r2 /\ rval r2 = v /\ rlen r2 + glen (renum (xs k)) = rlen r /\ lenB r2.dr_d <= lenB r.dr_d /\
      r2.dr_d = subB r.dr_d (lenB r.dr_d - lenB r2.dr_d) (lenB r.dr_d) }
    ensures { standing r2 d xs (k+1) }
  = nl_pos xs k; gval_pos (pure { renum (xs k) });
    let g = pure { gval (renum (xs k)) } in let m = pure { glen (renum (xs k)) } in let a = pure { nl xs k } in
    pow2_add a m;
    assert { nl xs (k+1) = a + m };
    assert { nv xs (k+1) = nv xs k + pow2 a * g };
    assert { rval r = g + pow2 m * v };
    dist4 (pure { pow2 (nl xs k) }) g (pure { pow2 m }) v (pure { pow2 (nl xs (k+1)) }) (pure { nv xs k }) (pure { nv xs (k+1) }) (pure { le d }) (pure { rval r });
    assert { nv xs (k+1) + pow2 (nl xs (k+1)) * v = le d };
    assert { lenB r2.dr_d <= lenB d };
    assert { eqB r2.dr_d (subB d (lenB d - lenB r2.dr_d) (lenB d)) }
  (* after the last number the reader has used up the bytes of the list and no others *)
  let ghost standing_end (r: deltaReader_t) (z tl: seqB) (xs: int -> int) (n: int) : unit
    requires { 0 <= n /\ standing r (catB z tl) xs n /\ 8 * lenB z - 8 < nl xs n <= 8 * lenB z }
    ensures { r.dr_d = tl }
  = assert { lenB r.dr_d = lenB tl }; assert { eqB r.dr_d tl }
endwhy

func index.(*deltaWriter).flushBits
  writes g_disk, h_buffer_t
  requires bok h_buffer_t g_disk w.dw_out
  requires 0 <= w.dw_nb <= 128 /\ 0 <= w.dw_b < pow2 w.dw_nb
  at entry: let ghost w0 = w in let ghost h0 = h_buffer_t in let ghost d0 = g_disk in
  at loop 1 before: wrote_none h_buffer_t g_disk w.dw_out; assert { le emptyB = 0 /\ pow2 0 = 1 }; let ghost ref y = emptyB in
  at loop 1 begin: let ghost b1 = w.dw_b in let ghost h1 = h_buffer_t in let ghost d1 = g_disk in low8 b1 w.dw_nb
  at loop 1 end: wrote_byte h0 d0 h1 d1 h_buffer_t g_disk w.dw_out y (mod b1 256); le_next y (mod b1 256) (div b1 256); y <- snocB y (mod b1 256)
  at loop 1 after: wrote_added h0 d0 h_buffer_t g_disk w.dw_out y
  loop 1
    variant w.dw_nb
    invariant bok h_buffer_t g_disk w.dw_out /\ w.dw_out = w0.dw_out
    invariant wrote h0 d0 h_buffer_t g_disk w.dw_out y
    invariant 0 <= w.dw_nb <= 128 /\ 0 <= w.dw_b < pow2 w.dw_nb
    invariant sofar y w.dw_b w.dw_nb w0.dw_b w0.dw_nb
  ensures wpend w /\ w.dw_out = (old w).dw_out
  ensures [bits leave in whole bytes] let y = added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.dw_out in
    wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.dw_out y /\ sofar y w.dw_b w.dw_nb (old w).dw_b (old w).dw_nb

func index.(*deltaWriter).Flush
  writes g_disk, h_buffer_t
  requires bok h_buffer_t g_disk w.dw_out
  requires wpend w
  at entry: let ghost w0 = w in let ghost h0 = h_buffer_t in let ghost d0 = g_disk in
  at call flushBits#1 after: assert { w.dw_nb = w0.dw_nb /\ eqB (added h0 d0 h_buffer_t g_disk w.dw_out) emptyB }; assert { added h0 d0 h_buffer_t g_disk w.dw_out = emptyB }; assert { le emptyB = 0 /\ pow2 0 = 1 }; assert { w.dw_b = w0.dw_b };
    let ghost h1 = h_buffer_t in let ghost d1 = g_disk in
  at exit: pow2_mono w0.dw_nb 8; if pure { w0.dw_nb > 0 } then begin wrote_more h0 d0 h1 d1 h_buffer_t g_disk w.dw_out emptyB (snocB emptyB w0.dw_b); assert { eqB (catB emptyB (snocB emptyB w0.dw_b)) (snocB emptyB w0.dw_b) } end
  ensures w.dw_b = 0 /\ w.dw_nb = 0 /\ w.dw_out = (old w).dw_out
  ensures [the last bits leave in one zero-padded byte] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.dw_out
    (if (old w).dw_nb = 0 then emptyB else snocB emptyB (old w).dw_b)

func index.(*deltaWriter).writeBits
  writes g_disk, h_buffer_t
  requires bok h_buffer_t g_disk w.dw_out
  requires wpend w
  requires 0 < x < 9223372036854775808
  at entry: let ghost w0 = w in let ghost h0 = h_buffer_t in let ghost d0 = g_disk in let ghost k = log2 x in let ghost r = x - pow2 k in let ghost o = w.dw_out in
    wrote_none h0 d0 o; let ghost ref y = emptyB in let ghost ref wb = w.dw_b in let ghost ref v = w.dw_b in let ghost ref l = w.dw_nb in
    let ghost ref h1 = h0 in let ghost ref d1 = d0 in
    assert { le emptyB = 0 /\ pow2 0 = 1 }; if pure { k >= 63 } then pow2_mono 63 k; assert { k <= 62 }; assert { pow2 (k+1) = 2 * pow2 k };
    assert { mod x (pow2 k) = r by mod x (pow2 k) = mod (1 * pow2 k + r) (pow2 k) }; assert { sofar y w.dw_b w.dw_nb v l }
  at call =w.nb#1 after: sofar_add y w.dw_b w0.dw_nb v l 0 k; pow2_mono w0.dw_nb w.dw_nb; l <- w.dw_nb; wb <- w.dw_b;
    assert { sofar y w.dw_b w.dw_nb v l }
  at call flushBits#1 after: let ghost y1 = added h1 d1 h_buffer_t g_disk o in
    sofar_flush y wb l v l y1 w.dw_b w.dw_nb; wrote_more h0 d0 h1 d1 h_buffer_t g_disk o y y1; y <- catB y y1; h1 <- h_buffer_t; d1 <- g_disk
  at call =w.b#1 before: assert { wpend w }; assert { sofar y w.dw_b w.dw_nb v l };
    let ghost n1 = w.dw_nb in let ghost b1 = w.dw_b in pow2_mono n1 8; below b1 n1 1 1; sofar_add y b1 n1 v l 1 1;
    assert { 1 * pow2 n1 < 18446744073709551616 }
  at call =w.b#1 after: assert { w.dw_b = b1 + 1 * pow2 n1 }; v <- v + 1 * pow2 l; l <- l + 1
  at call =w.b#2 before: assert { sofar y w.dw_b w.dw_nb v l /\ 0 <= w.dw_b < pow2 w.dw_nb };
    let ghost n2 = w.dw_nb in let ghost b2 = w.dw_b in let ghost c2 = mod x 4294967296 in pow2_mono n2 8; below b2 n2 c2 32; sofar_add y b2 n2 v l c2 32;
    pow2_mono (n2+32) 40; pow2_mono 40 64
  at call =w.b#2 after: assert { w.dw_b = b2 + c2 * pow2 n2 }; v <- v + c2 * pow2 l; l <- l + 32; wb <- w.dw_b; let ghost l2 = w.dw_nb + 32 in
  at call flushBits#2 after: let ghost y2 = added h1 d1 h_buffer_t g_disk o in
    sofar_flush y wb l2 v l y2 w.dw_b w.dw_nb; wrote_more h0 d0 h1 d1 h_buffer_t g_disk o y y2; y <- catB y y2; h1 <- h_buffer_t; d1 <- g_disk
  at call =w.b#3 before: assert { sofar y w.dw_b w.dw_nb v l }; let ghost n0 = w0.dw_nb in pow2_add n0 k; pow2_add n0 (k+1); pow2_add (n0+k+1) 32;
    assert { v = w0.dw_b + 1 * pow2 (n0 + k) + (if k > 32 then mod r 4294967296 * pow2 (n0 + k + 1) else 0) };
 assert { l = n0 + k + 1 + (if k > 32 then 32 else 0) };
    assert { if k > 32 then x = div r 4294967296 else x = r };
    assert { 0 <= w.dw_b < pow2 w.dw_nb /\ w.dw_nb <= 8 };
    if pure { k > 32 } then pow2_add 32 (k-32);
    assert { 0 <= x < pow2 lg }; assert { k > 32 -> v = w0.dw_b + pow2 n0 * pow2 k + mod r 4294967296 * (pow2 n0 * pow2 (k+1)) /\ pow2 l = pow2 n0 * pow2 (k+1) * 4294967296 /\ r = mod r 4294967296 + 4294967296 * x };
    assert { k <= 32 -> v = w0.dw_b + pow2 n0 * pow2 k /\ pow2 l = pow2 n0 * pow2 (k+1) /\ x = r };
    if pure { k > 32 } then combine v x (pow2 l) w0.dw_b (pow2 n0 * pow2 k) (pow2 n0 * pow2 (k+1)) (mod r 4294967296) r;
    assert { v + x * pow2 l = w0.dw_b + pow2 n0 * pow2 k + pow2 n0 * pow2 (k+1) * r };
    assert { v + x * pow2 l = w0.dw_b + pow2 n0 * gval x_in };
    let ghost n3 = w.dw_nb in let ghost b3 = w.dw_b in let ghost c3 = x in let ghost m3 = lg in pow2_mono n3 8; below b3 n3 c3 m3; sofar_add y b3 n3 v l c3 m3;
    pow2_mono (n3+m3) 40; pow2_mono 40 64
  at call =w.b#3 after: assert { w.dw_b = b3 + c3 * pow2 n3 }; v <- v + c3 * pow2 l; l <- l + m3; wb <- w.dw_b; let ghost l3 = w.dw_nb + m3 in
  at call flushBits#3 after: let ghost y3 = added h1 d1 h_buffer_t g_disk o in
    sofar_flush y wb l3 v l y3 w.dw_b w.dw_nb; wrote_more h0 d0 h1 d1 h_buffer_t g_disk o y y3; y <- catB y y3
  at exit: assert { sofar y w.dw_b w.dw_nb v l }; wrote_added h0 d0 h_buffer_t g_disk o y; assert { l = w0.dw_nb + glen x_in };
    assert { v = w0.dw_b + pow2 w0.dw_nb * gval x_in }
  ensures wpend w /\ w.dw_out = (old w).dw_out
  ensures [the gamma code is appended] let y = added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.dw_out in
    wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.dw_out y /\
    sofar y w.dw_b w.dw_nb ((old w).dw_b + pow2 ((old w).dw_nb) * gval x) ((old w).dw_nb + glen x)

func index.(*deltaWriter).Write
  writes g_disk, h_buffer_t
  requires bok h_buffer_t g_disk w.dw_out
  requires wpend w /\ (g_writeVersion <> 2 -> w.dw_nb = 0)
  requires 0 <= x < 9223372036854775807
  at exit: assert { eqB (subB w.dw_buf 0 n) (uvenc x) }; wrote_added (pure { old h_buffer_t }) (pure { old g_disk }) h_buffer_t g_disk w.dw_out (uvenc x)
  ensures wpend w /\ w.dw_out = (old w).dw_out /\ (g_writeVersion <> 2 -> w.dw_nb = 0)
  ensures [the code of the number is appended] let y = added (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.dw_out in
    wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk w.dw_out y /\
    if g_writeVersion = 2 then sofar y w.dw_b w.dw_nb ((old w).dw_b + pow2 ((old w).dw_nb) * gval (renum x)) ((old w).dw_nb + glen (renum x))
    else y = uvenc x

func index.(*deltaReader).next64
  ghostparam (ghost gx: int) (ghost gv: int)
  requires rok r
  requires upcoming r gx gv
  at entry: let ghost r0 = r in let ghost k = log2 gx in let ghost q = (gx - pow2 k) + pow2 k * gv in
    if pure { k >= 63 } then pow2_mono 63 k; assert { k <= 62 }; assert { pow2 (k+1) = 2 * pow2 k }; pow2_add k (k+1);
    assert { pow2 (2*k+1) * gv = pow2 k * (2 * (pow2 k * gv)) }; assert { q >= 0 by pow2 k * gv >= 0 }; assert { pow2 0 = 1 };
    assert { rval r = pow2 k * (1 + 2 * q) }; assert { eqB r.dr_d (subB r.dr_d 0 (lenB r.dr_d)) }
  loop 1
    variant lenB r.dr_d
    invariant 0 <= lg <= k /\ 0 <= r.dr_nb <= 8 /\ 0 <= r.dr_b < pow2 r.dr_nb
    invariant rval r = pow2 (k - lg) * (1 + 2 * q)
    invariant lg + rlen r = rlen r0
    invariant lenB r.dr_d <= lenB r0.dr_d /\ r.dr_d = subB r0.dr_d (lenB r0.dr_d - lenB r.dr_d) (lenB r0.dr_d)
  at loop 1 begin: let ghost r1 = r in gap r.dr_nb (k - lg) (le r.dr_d) q; assert { pow2 (k - lg - r.dr_nb) * (1 + 2 * q) > 0 }; assert { lenB r.dr_d > 0 }; le_uncons r.dr_d
  at loop 1 end: assert { eqB r.dr_d (subB r1.dr_d 1 (lenB r1.dr_d)) };
      assert { eqB r.dr_d (subB r0.dr_d (lenB r0.dr_d - lenB r.dr_d) (lenB r0.dr_d)) }
  at call TrailingZeros64#1 after: tzstep r.dr_b r.dr_nb (le r.dr_d) (k - lg) q nb; pow2_mono k 62; pow2_mono 62 63
  at call =nb#2 after: assert { rval r = q }; assert { x = pow2 k /\ lg = k }; assert { mod x (pow2 k) = 0 }
  at loop 2 begin: let ghost s2 = nb in let ghost b2 = r.dr_b in let ghost n2 = r.dr_nb in let ghost x2 = x in let ghost r2 = r in
    below (x2 - pow2 k) s2 b2 n2; pow2_mono s2 k; pow2_mono (s2 + n2) k; pow2_mono k 62; pow2_mono 62 63;
    assert { mod x2 (pow2 k) = x2 - pow2 k by mod (1 * pow2 k + (x2 - pow2 k)) (pow2 k) = x2 - pow2 k }; or_gap_u64 x2 (b2 * pow2 s2) s2 k;
    take (x2 - pow2 k) s2 b2 n2 (le r.dr_d) q; assert { lenB r.dr_d > 0 }; le_uncons r.dr_d
  at call =x#2 after: assert { x = x2 + b2 * pow2 s2 }
  at loop 2 end: assert { eqB r.dr_d (subB r2.dr_d 1 (lenB r2.dr_d)) };
      assert { eqB r.dr_d (subB r0.dr_d (lenB r0.dr_d - lenB r.dr_d) (lenB r0.dr_d)) }; assert { rval r = le r2.dr_d }
  at call =x#3 before: let ghost s3 = nb in let ghost b3 = r.dr_b in let ghost n3 = r.dr_nb in let ghost x3 = x in let ghost g3 = lg in
    splitlow b3 n3 g3 (le r.dr_d); let ghost m3 = mod b3 (pow2 g3) in below (x3 - pow2 k) s3 m3 g3; pow2_mono s3 k; pow2_mono k 62; pow2_mono 62 63;
    assert { mod x3 (pow2 k) = x3 - pow2 k by mod (1 * pow2 k + (x3 - pow2 k)) (pow2 k) = x3 - pow2 k }; or_gap_u64 x3 (m3 * pow2 s3) s3 k;
    take (x3 - pow2 k) s3 m3 g3 (div b3 (pow2 g3) + pow2 (n3 - g3) * le r.dr_d) q
  at call =x#3 after: assert { x = x3 + m3 * pow2 s3 }
  at return *: assert { q = (x - pow2 k) + pow2 k * rval r }; divuniq (pure { pow2 k }) (x - pow2 k) (rval r) (gx - pow2 k) gv
  loop 2
    variant lenB r.dr_d
    invariant 0 <= nb /\ 0 <= lg /\ nb + lg = k /\ 0 <= r.dr_nb <= 8 /\ (r.dr_nb < 8 \/ lg >= 1) /\ 0 <= r.dr_b < pow2 r.dr_nb
    invariant pow2 k <= x < pow2 k + pow2 nb
    invariant q = (x - pow2 k) + pow2 nb * rval r
    invariant nb + rlen r + k + 1 = rlen r0
    invariant lenB r.dr_d <= lenB r0.dr_d /\ r.dr_d = subB r0.dr_d (lenB r0.dr_d - lenB r.dr_d) (lenB r0.dr_d)
  ensures rok r /\ r.dr_ix = (old r).dr_ix
  ensures [the number is read back] res0 = gx
  ensures [exactly its bits are consumed] rval r = gv /\ rlen r + glen gx = rlen (old r) /\ lenB r.dr_d <= lenB (old r).dr_d /\
    r.dr_d = subB (old r).dr_d (lenB (old r).dr_d - lenB r.dr_d) (lenB (old r).dr_d)

func index.(*deltaWriter).init
  at exit: assert { pow2 0 = 1 }
  ensures wpend w /\ w.dw_out = out /\ w.dw_nb = 0 /\ w.dw_b = 0

func index.(*deltaReader).init
  at exit: assert { pow2 0 = 1 }
  ensures rok r /\ r.dr_ix = ix /\ r.dr_d = data /\ r.dr_b = 0 /\ r.dr_nb = 0

func index.(*deltaReader).clearBits
  at exit: assert { pow2 0 = 1 }
  ensures [the rest of the byte is passed over] rok r /\ r.dr_ix = (old r).dr_ix /\ r.dr_d = (old r).dr_d /\ r.dr_b = 0 /\ r.dr_nb = 0

func index.(*deltaReader).next
  ghostparam (ghost gx: int) (ghost gv: int)
  requires 0 <= gx < 9223372036854775807 /\ rok r /\ r.dr_ix <> 0
  requires if (dr_index_t r.dr_ix).ix_version = 2 then upcoming r (renum gx) gv else isprefix (uvenc gx) r.dr_d
  at call next64#1 args: (pure { renum gx }) gv
  ensures rok r /\ r.dr_ix = (old r).dr_ix
  ensures [the number is read back] res0 = gx
  ensures [exactly its code is consumed] if (dr_index_t r.dr_ix).ix_version = 2 then rval r = gv /\ rlen r + glen (renum gx) = rlen (old r) /\ lenB r.dr_d <= lenB (old r).dr_d /\
    r.dr_d = subB (old r).dr_d (lenB (old r).dr_d - lenB r.dr_d) (lenB (old r).dr_d)
    else r.dr_d = subB (old r).dr_d (lenB (uvenc gx)) (lenB (old r).dr_d) /\ r.dr_b = (old r).dr_b /\ r.dr_nb = (old r).dr_nb
