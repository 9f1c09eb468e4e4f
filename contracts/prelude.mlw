(* Machine arithmetic of Go, over mathematical integers: unsigned operations wrap exactly;
   signed operations carry a no-overflow obligation; indexing and division carry their panics as obligations. *)
module Prelude
  use int.Int
  use int.EuclideanDivision

  val x_panic () : 'a requires { [@expl:panic unreachable] false }
  val x_forbid () : 'a requires { [@expl:fatal error unreachable] false }
  val x_fatal () : 'a ensures { false }
  val ghost x_tick (ref f: int) : unit writes { f } ensures { 0 <= old f /\ f < old f }
  function imin (a b: int) : int = if a < b then a else b
  function imax (a b: int) : int = if a < b then b else a
  val pmin (a b: int) : int ensures { result = imin a b }
  val pmax (a b: int) : int ensures { result = imax a b }
  val bool_eq (a b: bool) : bool ensures { result <-> a = b }
  (* bit view of non-negative integers *)
  function pow2 int : int
  axiom pow2_0 : pow2 0 = 1
  axiom pow2_s : forall n [pow2 (n+1)]. 0 <= n -> pow2 (n + 1) = 2 * pow2 n
  axiom pow2_pos : forall n [pow2 n]. 0 <= n -> pow2 n > 0
  val add_i64 (a b: int) : int requires { [@expl:integer overflow] (-9223372036854775808) <= (a + b) <= 9223372036854775807 } ensures { result = a + b }
  val sub_i64 (a b: int) : int requires { [@expl:integer overflow] (-9223372036854775808) <= (a - b) <= 9223372036854775807 } ensures { result = a - b }
  val mul_i64 (a b: int) : int requires { [@expl:integer overflow] (-9223372036854775808) <= (a * b) <= 9223372036854775807 } ensures { result = a * b }
  val neg_i64 (a: int) : int requires { [@expl:integer overflow] a > (-9223372036854775808) } ensures { result = - a }
  val quo_i64 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = div a b } ensures { a < 0 /\ b > 0 -> result = - (div (- a) b) } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val rem_i64 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = mod a b } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val shl_i64 (a b: int) : int requires { [@expl:shift count] b >= 0 } requires { [@expl:integer overflow] a >= 0 /\ b < 64 /\ a * pow2 b <= 9223372036854775807 } ensures { result = a * pow2 b }
  val shr_i64 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { b < 64 -> result = div a (pow2 b) } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  function bitand_i64 int int : int
  val and_i64 (a b: int) : int ensures { result = bitand_i64 a b } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  function bitor_i64 int int : int
  val or_i64 (a b: int) : int ensures { result = bitor_i64 a b } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  function bitxor_i64 int int : int
  val xor_i64 (a b: int) : int ensures { result = bitxor_i64 a b } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  function bitandnot_i64 int int : int
  val andnot_i64 (a b: int) : int ensures { result = bitandnot_i64 a b } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val add_i32 (a b: int) : int requires { [@expl:integer overflow] (-2147483648) <= (a + b) <= 2147483647 } ensures { result = a + b }
  val sub_i32 (a b: int) : int requires { [@expl:integer overflow] (-2147483648) <= (a - b) <= 2147483647 } ensures { result = a - b }
  val mul_i32 (a b: int) : int requires { [@expl:integer overflow] (-2147483648) <= (a * b) <= 2147483647 } ensures { result = a * b }
  val neg_i32 (a: int) : int requires { [@expl:integer overflow] a > (-2147483648) } ensures { result = - a }
  val quo_i32 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = div a b } ensures { a < 0 /\ b > 0 -> result = - (div (- a) b) } ensures { (-2147483648) <= result <= 2147483647 }
  val rem_i32 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = mod a b } ensures { (-2147483648) <= result <= 2147483647 }
  val shl_i32 (a b: int) : int requires { [@expl:shift count] b >= 0 } requires { [@expl:integer overflow] a >= 0 /\ b < 32 /\ a * pow2 b <= 2147483647 } ensures { result = a * pow2 b }
  val shr_i32 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { b < 32 -> result = div a (pow2 b) } ensures { (-2147483648) <= result <= 2147483647 }
  function bitand_i32 int int : int
  val and_i32 (a b: int) : int ensures { result = bitand_i32 a b } ensures { (-2147483648) <= result <= 2147483647 }
  function bitor_i32 int int : int
  val or_i32 (a b: int) : int ensures { result = bitor_i32 a b } ensures { (-2147483648) <= result <= 2147483647 }
  function bitxor_i32 int int : int
  val xor_i32 (a b: int) : int ensures { result = bitxor_i32 a b } ensures { (-2147483648) <= result <= 2147483647 }
  function bitandnot_i32 int int : int
  val andnot_i32 (a b: int) : int ensures { result = bitandnot_i32 a b } ensures { (-2147483648) <= result <= 2147483647 }
  val add_i16 (a b: int) : int requires { [@expl:integer overflow] (-32768) <= (a + b) <= 32767 } ensures { result = a + b }
  val sub_i16 (a b: int) : int requires { [@expl:integer overflow] (-32768) <= (a - b) <= 32767 } ensures { result = a - b }
  val mul_i16 (a b: int) : int requires { [@expl:integer overflow] (-32768) <= (a * b) <= 32767 } ensures { result = a * b }
  val neg_i16 (a: int) : int requires { [@expl:integer overflow] a > (-32768) } ensures { result = - a }
  val quo_i16 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = div a b } ensures { a < 0 /\ b > 0 -> result = - (div (- a) b) } ensures { (-32768) <= result <= 32767 }
  val rem_i16 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = mod a b } ensures { (-32768) <= result <= 32767 }
  val shl_i16 (a b: int) : int requires { [@expl:shift count] b >= 0 } requires { [@expl:integer overflow] a >= 0 /\ b < 16 /\ a * pow2 b <= 32767 } ensures { result = a * pow2 b }
  val shr_i16 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { b < 16 -> result = div a (pow2 b) } ensures { (-32768) <= result <= 32767 }
  function bitand_i16 int int : int
  val and_i16 (a b: int) : int ensures { result = bitand_i16 a b } ensures { (-32768) <= result <= 32767 }
  function bitor_i16 int int : int
  val or_i16 (a b: int) : int ensures { result = bitor_i16 a b } ensures { (-32768) <= result <= 32767 }
  function bitxor_i16 int int : int
  val xor_i16 (a b: int) : int ensures { result = bitxor_i16 a b } ensures { (-32768) <= result <= 32767 }
  function bitandnot_i16 int int : int
  val andnot_i16 (a b: int) : int ensures { result = bitandnot_i16 a b } ensures { (-32768) <= result <= 32767 }
  val add_i8 (a b: int) : int requires { [@expl:integer overflow] (-128) <= (a + b) <= 127 } ensures { result = a + b }
  val sub_i8 (a b: int) : int requires { [@expl:integer overflow] (-128) <= (a - b) <= 127 } ensures { result = a - b }
  val mul_i8 (a b: int) : int requires { [@expl:integer overflow] (-128) <= (a * b) <= 127 } ensures { result = a * b }
  val neg_i8 (a: int) : int requires { [@expl:integer overflow] a > (-128) } ensures { result = - a }
  val quo_i8 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = div a b } ensures { a < 0 /\ b > 0 -> result = - (div (- a) b) } ensures { (-128) <= result <= 127 }
  val rem_i8 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { a >= 0 /\ b > 0 -> result = mod a b } ensures { (-128) <= result <= 127 }
  val shl_i8 (a b: int) : int requires { [@expl:shift count] b >= 0 } requires { [@expl:integer overflow] a >= 0 /\ b < 8 /\ a * pow2 b <= 127 } ensures { result = a * pow2 b }
  val shr_i8 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { b < 8 -> result = div a (pow2 b) } ensures { (-128) <= result <= 127 }
  function bitand_i8 int int : int
  val and_i8 (a b: int) : int ensures { result = bitand_i8 a b } ensures { (-128) <= result <= 127 }
  function bitor_i8 int int : int
  val or_i8 (a b: int) : int ensures { result = bitor_i8 a b } ensures { (-128) <= result <= 127 }
  function bitxor_i8 int int : int
  val xor_i8 (a b: int) : int ensures { result = bitxor_i8 a b } ensures { (-128) <= result <= 127 }
  function bitandnot_i8 int int : int
  val andnot_i8 (a b: int) : int ensures { result = bitandnot_i8 a b } ensures { (-128) <= result <= 127 }
  val add_u64 (a b: int) : int ensures { result = (if a + b < 18446744073709551616 then a + b else a + b - 18446744073709551616) }
  val sub_u64 (a b: int) : int ensures { result = (if a >= b then a - b else a - b + 18446744073709551616) }
  val mul_u64 (a b: int) : int ensures { result = mod (a * b) 18446744073709551616 } ensures { 0 <= a * b < 18446744073709551616 -> result = a * b }
  val neg_u64 (a: int) : int ensures { result = (if a = 0 then 0 else 18446744073709551616 - a) }
  val quo_u64 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = div a b } ensures { 0 <= result <= a }
  val rem_u64 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = mod a b } ensures { 0 <= result < b }
  val shl_u64 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 18446744073709551615 } ensures { b >= 64 -> result = 0 } ensures { b < 64 -> result = mod (a * pow2 b) 18446744073709551616 } ensures { b < 64 -> 0 <= a * pow2 b < 18446744073709551616 -> result = a * pow2 b }
  val shr_u64 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 18446744073709551615 } ensures { b >= 64 -> result = 0 } ensures { b < 64 -> result = div a (pow2 b) }
  val lowmask_u64 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 18446744073709551615 } ensures { b >= 64 -> result = a } ensures { b < 64 -> result = mod a (pow2 b) }
  function bitand_u64 int int : int
  val and_u64 (a b: int) : int ensures { result = bitand_u64 a b } ensures { 0 <= result <= 18446744073709551615 }
  function bitor_u64 int int : int
  val or_u64 (a b: int) : int ensures { result = bitor_u64 a b } ensures { 0 <= result <= 18446744073709551615 }
  (* m is a power of two that divides a *)
  val orl_u64 (m a b: int) : int ensures { result = bitor_u64 a b } ensures { b < m -> result = a + b } ensures { a <= result <= 18446744073709551615 }
  (* m is a power of two above b *)
  val orz_u64 (m a b: int) : int ensures { result = bitor_u64 a b } ensures { mod a m = 0 -> result = a + b } ensures { a <= result <= 18446744073709551615 }
  (* b is a multiple of 2^n *)
  val ors_u64 (n a b: int) : int ensures { result = bitor_u64 a b } ensures { n >= 0 /\ 0 <= a < pow2 n /\ mod b (pow2 n) = 0 -> result = a + b } ensures { a <= result <= 18446744073709551615 }
  (* b fits into a gap of a *)
  val ghost or_gap_u64 (a b n m: int) : unit
    requires { 0 <= n <= m /\ 0 <= a /\ 0 <= b < pow2 m /\ mod a (pow2 m) < pow2 n /\ mod b (pow2 n) = 0 } ensures { bitor_u64 a b = a + b }
  function bitxor_u64 int int : int
  val xor_u64 (a b: int) : int ensures { result = bitxor_u64 a b } ensures { 0 <= result <= 18446744073709551615 }
  function bitandnot_u64 int int : int
  val andnot_u64 (a b: int) : int ensures { result = bitandnot_u64 a b } ensures { 0 <= result <= 18446744073709551615 }
  val add_u32 (a b: int) : int ensures { result = (if a + b < 4294967296 then a + b else a + b - 4294967296) }
  val sub_u32 (a b: int) : int ensures { result = (if a >= b then a - b else a - b + 4294967296) }
  val mul_u32 (a b: int) : int ensures { result = mod (a * b) 4294967296 } ensures { 0 <= a * b < 4294967296 -> result = a * b }
  val neg_u32 (a: int) : int ensures { result = (if a = 0 then 0 else 4294967296 - a) }
  val quo_u32 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = div a b } ensures { 0 <= result <= a }
  val rem_u32 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = mod a b } ensures { 0 <= result < b }
  val shl_u32 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 4294967295 } ensures { b >= 32 -> result = 0 } ensures { b < 32 -> result = mod (a * pow2 b) 4294967296 } ensures { b < 32 -> 0 <= a * pow2 b < 4294967296 -> result = a * pow2 b }
  val shr_u32 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 4294967295 } ensures { b >= 32 -> result = 0 } ensures { b < 32 -> result = div a (pow2 b) }
  val lowmask_u32 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 4294967295 } ensures { b >= 32 -> result = a } ensures { b < 32 -> result = mod a (pow2 b) }
  function bitand_u32 int int : int
  val and_u32 (a b: int) : int ensures { result = bitand_u32 a b } ensures { 0 <= result <= 4294967295 }
  function bitor_u32 int int : int
  val or_u32 (a b: int) : int ensures { result = bitor_u32 a b } ensures { 0 <= result <= 4294967295 }
  (* m is a power of two that divides a *)
  val orl_u32 (m a b: int) : int ensures { result = bitor_u32 a b } ensures { b < m -> result = a + b } ensures { a <= result <= 4294967295 }
  (* m is a power of two above b *)
  val orz_u32 (m a b: int) : int ensures { result = bitor_u32 a b } ensures { mod a m = 0 -> result = a + b } ensures { a <= result <= 4294967295 }
  (* b is a multiple of 2^n *)
  val ors_u32 (n a b: int) : int ensures { result = bitor_u32 a b } ensures { n >= 0 /\ 0 <= a < pow2 n /\ mod b (pow2 n) = 0 -> result = a + b } ensures { a <= result <= 4294967295 }
  function bitxor_u32 int int : int
  val xor_u32 (a b: int) : int ensures { result = bitxor_u32 a b } ensures { 0 <= result <= 4294967295 }
  function bitandnot_u32 int int : int
  val andnot_u32 (a b: int) : int ensures { result = bitandnot_u32 a b } ensures { 0 <= result <= 4294967295 }
  val add_u16 (a b: int) : int ensures { result = (if a + b < 65536 then a + b else a + b - 65536) }
  val sub_u16 (a b: int) : int ensures { result = (if a >= b then a - b else a - b + 65536) }
  val mul_u16 (a b: int) : int ensures { result = mod (a * b) 65536 } ensures { 0 <= a * b < 65536 -> result = a * b }
  val neg_u16 (a: int) : int ensures { result = (if a = 0 then 0 else 65536 - a) }
  val quo_u16 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = div a b } ensures { 0 <= result <= a }
  val rem_u16 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = mod a b } ensures { 0 <= result < b }
  val shl_u16 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 65535 } ensures { b >= 16 -> result = 0 } ensures { b < 16 -> result = mod (a * pow2 b) 65536 } ensures { b < 16 -> 0 <= a * pow2 b < 65536 -> result = a * pow2 b }
  val shr_u16 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 65535 } ensures { b >= 16 -> result = 0 } ensures { b < 16 -> result = div a (pow2 b) }
  val lowmask_u16 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 65535 } ensures { b >= 16 -> result = a } ensures { b < 16 -> result = mod a (pow2 b) }
  function bitand_u16 int int : int
  val and_u16 (a b: int) : int ensures { result = bitand_u16 a b } ensures { 0 <= result <= 65535 }
  function bitor_u16 int int : int
  val or_u16 (a b: int) : int ensures { result = bitor_u16 a b } ensures { 0 <= result <= 65535 }
  (* m is a power of two that divides a *)
  val orl_u16 (m a b: int) : int ensures { result = bitor_u16 a b } ensures { b < m -> result = a + b } ensures { a <= result <= 65535 }
  (* m is a power of two above b *)
  val orz_u16 (m a b: int) : int ensures { result = bitor_u16 a b } ensures { mod a m = 0 -> result = a + b } ensures { a <= result <= 65535 }
  (* b is a multiple of 2^n *)
  val ors_u16 (n a b: int) : int ensures { result = bitor_u16 a b } ensures { n >= 0 /\ 0 <= a < pow2 n /\ mod b (pow2 n) = 0 -> result = a + b } ensures { a <= result <= 65535 }
  function bitxor_u16 int int : int
  val xor_u16 (a b: int) : int ensures { result = bitxor_u16 a b } ensures { 0 <= result <= 65535 }
  function bitandnot_u16 int int : int
  val andnot_u16 (a b: int) : int ensures { result = bitandnot_u16 a b } ensures { 0 <= result <= 65535 }
  val add_u8 (a b: int) : int ensures { result = (if a + b < 256 then a + b else a + b - 256) }
  val sub_u8 (a b: int) : int ensures { result = (if a >= b then a - b else a - b + 256) }
  val mul_u8 (a b: int) : int ensures { result = mod (a * b) 256 } ensures { 0 <= a * b < 256 -> result = a * b }
  val neg_u8 (a: int) : int ensures { result = (if a = 0 then 0 else 256 - a) }
  val quo_u8 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = div a b } ensures { 0 <= result <= a }
  val rem_u8 (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = mod a b } ensures { 0 <= result < b }
  val shl_u8 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 255 } ensures { b >= 8 -> result = 0 } ensures { b < 8 -> result = mod (a * pow2 b) 256 } ensures { b < 8 -> 0 <= a * pow2 b < 256 -> result = a * pow2 b }
  val shr_u8 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 255 } ensures { b >= 8 -> result = 0 } ensures { b < 8 -> result = div a (pow2 b) }
  val lowmask_u8 (a b: int) : int requires { [@expl:shift count] b >= 0 } ensures { 0 <= result <= 255 } ensures { b >= 8 -> result = a } ensures { b < 8 -> result = mod a (pow2 b) }
  function bitand_u8 int int : int
  val and_u8 (a b: int) : int ensures { result = bitand_u8 a b } ensures { 0 <= result <= 255 }
  function bitor_u8 int int : int
  val or_u8 (a b: int) : int ensures { result = bitor_u8 a b } ensures { 0 <= result <= 255 }
  (* m is a power of two that divides a *)
  val orl_u8 (m a b: int) : int ensures { result = bitor_u8 a b } ensures { b < m -> result = a + b } ensures { a <= result <= 255 }
  (* m is a power of two above b *)
  val orz_u8 (m a b: int) : int ensures { result = bitor_u8 a b } ensures { mod a m = 0 -> result = a + b } ensures { a <= result <= 255 }
  function bitxor_u8 int int : int
  val xor_u8 (a b: int) : int ensures { result = bitxor_u8 a b } ensures { 0 <= result <= 255 }
  function bitandnot_u8 int int : int
  val andnot_u8 (a b: int) : int ensures { result = bitandnot_u8 a b } ensures { 0 <= result <= 255 }
  val conv_i64_i32 (x: int) : int ensures { (-2147483648) <= x <= 2147483647 -> result = x } ensures { mod result 4294967296 = mod x 4294967296 } ensures { (-2147483648) <= result <= 2147483647 }
  val conv_i64_i16 (x: int) : int ensures { (-32768) <= x <= 32767 -> result = x } ensures { mod result 65536 = mod x 65536 } ensures { (-32768) <= result <= 32767 }
  val conv_i64_i8 (x: int) : int ensures { (-128) <= x <= 127 -> result = x } ensures { mod result 256 = mod x 256 } ensures { (-128) <= result <= 127 }
  val conv_i64_u64 (x: int) : int ensures { 0 <= x <= 18446744073709551615 -> result = x } ensures { result = mod x 18446744073709551616 } ensures { 0 <= result <= 18446744073709551615 }
  val conv_i64_u32 (x: int) : int ensures { 0 <= x <= 4294967295 -> result = x } ensures { result = mod x 4294967296 } ensures { 0 <= result <= 4294967295 }
  val conv_i64_u16 (x: int) : int ensures { 0 <= x <= 65535 -> result = x } ensures { result = mod x 65536 } ensures { 0 <= result <= 65535 }
  val conv_i64_u8 (x: int) : int ensures { 0 <= x <= 255 -> result = x } ensures { result = mod x 256 } ensures { 0 <= result <= 255 }
  val conv_i32_i64 (x: int) : int ensures { (-9223372036854775808) <= x <= 9223372036854775807 -> result = x } ensures { mod result 18446744073709551616 = mod x 18446744073709551616 } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val conv_i32_i16 (x: int) : int ensures { (-32768) <= x <= 32767 -> result = x } ensures { mod result 65536 = mod x 65536 } ensures { (-32768) <= result <= 32767 }
  val conv_i32_i8 (x: int) : int ensures { (-128) <= x <= 127 -> result = x } ensures { mod result 256 = mod x 256 } ensures { (-128) <= result <= 127 }
  val conv_i32_u64 (x: int) : int ensures { 0 <= x <= 18446744073709551615 -> result = x } ensures { result = mod x 18446744073709551616 } ensures { 0 <= result <= 18446744073709551615 }
  val conv_i32_u32 (x: int) : int ensures { 0 <= x <= 4294967295 -> result = x } ensures { result = mod x 4294967296 } ensures { 0 <= result <= 4294967295 }
  val conv_i32_u16 (x: int) : int ensures { 0 <= x <= 65535 -> result = x } ensures { result = mod x 65536 } ensures { 0 <= result <= 65535 }
  val conv_i32_u8 (x: int) : int ensures { 0 <= x <= 255 -> result = x } ensures { result = mod x 256 } ensures { 0 <= result <= 255 }
  val conv_i16_i64 (x: int) : int ensures { (-9223372036854775808) <= x <= 9223372036854775807 -> result = x } ensures { mod result 18446744073709551616 = mod x 18446744073709551616 } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val conv_i16_i32 (x: int) : int ensures { (-2147483648) <= x <= 2147483647 -> result = x } ensures { mod result 4294967296 = mod x 4294967296 } ensures { (-2147483648) <= result <= 2147483647 }
  val conv_i16_i8 (x: int) : int ensures { (-128) <= x <= 127 -> result = x } ensures { mod result 256 = mod x 256 } ensures { (-128) <= result <= 127 }
  val conv_i16_u64 (x: int) : int ensures { 0 <= x <= 18446744073709551615 -> result = x } ensures { result = mod x 18446744073709551616 } ensures { 0 <= result <= 18446744073709551615 }
  val conv_i16_u32 (x: int) : int ensures { 0 <= x <= 4294967295 -> result = x } ensures { result = mod x 4294967296 } ensures { 0 <= result <= 4294967295 }
  val conv_i16_u16 (x: int) : int ensures { 0 <= x <= 65535 -> result = x } ensures { result = mod x 65536 } ensures { 0 <= result <= 65535 }
  val conv_i16_u8 (x: int) : int ensures { 0 <= x <= 255 -> result = x } ensures { result = mod x 256 } ensures { 0 <= result <= 255 }
  val conv_i8_i64 (x: int) : int ensures { (-9223372036854775808) <= x <= 9223372036854775807 -> result = x } ensures { mod result 18446744073709551616 = mod x 18446744073709551616 } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val conv_i8_i32 (x: int) : int ensures { (-2147483648) <= x <= 2147483647 -> result = x } ensures { mod result 4294967296 = mod x 4294967296 } ensures { (-2147483648) <= result <= 2147483647 }
  val conv_i8_i16 (x: int) : int ensures { (-32768) <= x <= 32767 -> result = x } ensures { mod result 65536 = mod x 65536 } ensures { (-32768) <= result <= 32767 }
  val conv_i8_u64 (x: int) : int ensures { 0 <= x <= 18446744073709551615 -> result = x } ensures { result = mod x 18446744073709551616 } ensures { 0 <= result <= 18446744073709551615 }
  val conv_i8_u32 (x: int) : int ensures { 0 <= x <= 4294967295 -> result = x } ensures { result = mod x 4294967296 } ensures { 0 <= result <= 4294967295 }
  val conv_i8_u16 (x: int) : int ensures { 0 <= x <= 65535 -> result = x } ensures { result = mod x 65536 } ensures { 0 <= result <= 65535 }
  val conv_i8_u8 (x: int) : int ensures { 0 <= x <= 255 -> result = x } ensures { result = mod x 256 } ensures { 0 <= result <= 255 }
  val conv_u64_i64 (x: int) : int ensures { (-9223372036854775808) <= x <= 9223372036854775807 -> result = x } ensures { mod result 18446744073709551616 = mod x 18446744073709551616 } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val conv_u64_i32 (x: int) : int ensures { (-2147483648) <= x <= 2147483647 -> result = x } ensures { mod result 4294967296 = mod x 4294967296 } ensures { (-2147483648) <= result <= 2147483647 }
  val conv_u64_i16 (x: int) : int ensures { (-32768) <= x <= 32767 -> result = x } ensures { mod result 65536 = mod x 65536 } ensures { (-32768) <= result <= 32767 }
  val conv_u64_i8 (x: int) : int ensures { (-128) <= x <= 127 -> result = x } ensures { mod result 256 = mod x 256 } ensures { (-128) <= result <= 127 }
  val conv_u64_u32 (x: int) : int ensures { 0 <= x <= 4294967295 -> result = x } ensures { result = mod x 4294967296 } ensures { 0 <= result <= 4294967295 }
  val conv_u64_u16 (x: int) : int ensures { 0 <= x <= 65535 -> result = x } ensures { result = mod x 65536 } ensures { 0 <= result <= 65535 }
  val conv_u64_u8 (x: int) : int ensures { 0 <= x <= 255 -> result = x } ensures { result = mod x 256 } ensures { 0 <= result <= 255 }
  val conv_u32_i64 (x: int) : int ensures { (-9223372036854775808) <= x <= 9223372036854775807 -> result = x } ensures { mod result 18446744073709551616 = mod x 18446744073709551616 } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val conv_u32_i32 (x: int) : int ensures { (-2147483648) <= x <= 2147483647 -> result = x } ensures { mod result 4294967296 = mod x 4294967296 } ensures { (-2147483648) <= result <= 2147483647 }
  val conv_u32_i16 (x: int) : int ensures { (-32768) <= x <= 32767 -> result = x } ensures { mod result 65536 = mod x 65536 } ensures { (-32768) <= result <= 32767 }
  val conv_u32_i8 (x: int) : int ensures { (-128) <= x <= 127 -> result = x } ensures { mod result 256 = mod x 256 } ensures { (-128) <= result <= 127 }
  val conv_u32_u64 (x: int) : int ensures { 0 <= x <= 18446744073709551615 -> result = x } ensures { result = mod x 18446744073709551616 } ensures { 0 <= result <= 18446744073709551615 }
  val conv_u32_u16 (x: int) : int ensures { 0 <= x <= 65535 -> result = x } ensures { result = mod x 65536 } ensures { 0 <= result <= 65535 }
  val conv_u32_u8 (x: int) : int ensures { 0 <= x <= 255 -> result = x } ensures { result = mod x 256 } ensures { 0 <= result <= 255 }
  val conv_u16_i64 (x: int) : int ensures { (-9223372036854775808) <= x <= 9223372036854775807 -> result = x } ensures { mod result 18446744073709551616 = mod x 18446744073709551616 } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val conv_u16_i32 (x: int) : int ensures { (-2147483648) <= x <= 2147483647 -> result = x } ensures { mod result 4294967296 = mod x 4294967296 } ensures { (-2147483648) <= result <= 2147483647 }
  val conv_u16_i16 (x: int) : int ensures { (-32768) <= x <= 32767 -> result = x } ensures { mod result 65536 = mod x 65536 } ensures { (-32768) <= result <= 32767 }
  val conv_u16_i8 (x: int) : int ensures { (-128) <= x <= 127 -> result = x } ensures { mod result 256 = mod x 256 } ensures { (-128) <= result <= 127 }
  val conv_u16_u64 (x: int) : int ensures { 0 <= x <= 18446744073709551615 -> result = x } ensures { result = mod x 18446744073709551616 } ensures { 0 <= result <= 18446744073709551615 }
  val conv_u16_u32 (x: int) : int ensures { 0 <= x <= 4294967295 -> result = x } ensures { result = mod x 4294967296 } ensures { 0 <= result <= 4294967295 }
  val conv_u16_u8 (x: int) : int ensures { 0 <= x <= 255 -> result = x } ensures { result = mod x 256 } ensures { 0 <= result <= 255 }
  val conv_u8_i64 (x: int) : int ensures { (-9223372036854775808) <= x <= 9223372036854775807 -> result = x } ensures { mod result 18446744073709551616 = mod x 18446744073709551616 } ensures { (-9223372036854775808) <= result <= 9223372036854775807 }
  val conv_u8_i32 (x: int) : int ensures { (-2147483648) <= x <= 2147483647 -> result = x } ensures { mod result 4294967296 = mod x 4294967296 } ensures { (-2147483648) <= result <= 2147483647 }
  val conv_u8_i16 (x: int) : int ensures { (-32768) <= x <= 32767 -> result = x } ensures { mod result 65536 = mod x 65536 } ensures { (-32768) <= result <= 32767 }
  val conv_u8_i8 (x: int) : int ensures { (-128) <= x <= 127 -> result = x } ensures { mod result 256 = mod x 256 } ensures { (-128) <= result <= 127 }
  val conv_u8_u64 (x: int) : int ensures { 0 <= x <= 18446744073709551615 -> result = x } ensures { result = mod x 18446744073709551616 } ensures { 0 <= result <= 18446744073709551615 }
  val conv_u8_u32 (x: int) : int ensures { 0 <= x <= 4294967295 -> result = x } ensures { result = mod x 4294967296 } ensures { 0 <= result <= 4294967295 }
  val conv_u8_u16 (x: int) : int ensures { 0 <= x <= 65535 -> result = x } ensures { result = mod x 65536 } ensures { 0 <= result <= 65535 }
  val any_below (n: int) : int requires { 0 < n } ensures { 0 <= result < n }
  val any_upto (n: int) : int requires { 0 <= n } ensures { 0 <= result <= n }
end
