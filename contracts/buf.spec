# The write buffer: what has been written to it is the file followed by the buffered bytes.
unit buf
package index
heap Buffer
capped Buffer.buf
prefix Buffer bf_
drop Buffer.tmp
use []byte index.Buffer
global writeVersion ro int
opaque os.File int
extern log.Fatalf fatal
# writing to a file: all of p is written, or an error is reported
extern (*os.File).Write as=x_fwrite mod=g_disk
  val x_fwrite (f: int) (p: seqB) : (int, int)
    writes { g_disk }
    requires { [@expl:file is open] f <> 0 }
    ensures { let (n, err) = result in 0 <= n <= lenB p /\ (err = 0 -> n = lenB p /\
      g_disk = set (old g_disk) f (catB (get (old g_disk) f) p) /\ lenB (get g_disk f) < 1152921504606846976) }
extern (*os.File).WriteString as=x_fwritestr mod=g_disk
  val x_fwritestr (f: int) (p: seqB) : (int, int)
    writes { g_disk }
    requires { [@expl:file is open] f <> 0 }
    ensures { let (n, err) = result in 0 <= n <= lenB p /\ (err = 0 -> n = lenB p /\
      g_disk = set (old g_disk) f (catB (get (old g_disk) f) p) /\ lenB (get g_disk f) < 1152921504606846976) }
extern binary.AppendUvarint capped=0 capres
  val x_binary_AppendUvarint (b: capB) (x: int) : capB
    ensures { plainB result = catB (plainB b) (uvenc x) /\ result.cB_n = b.cB_n + lenB (uvenc x) /\ result.cB_n <= lenB result.cB_a <= 0x3fffffffffffffff }

why
  val ref g_disk : map int seqB   (* what each open file holds *)
  (* the unsigned varint coding of encoding/binary *)
  function uvenc (x: int) : seqB
  axiom uvenc_len: forall x [uvenc x]. 1 <= lenB (uvenc x) <= 10
  function view (h: map int buffer_t) (d: map int seqB) (b: int) : seqB = catB (get d (get h b).bf_file) (plainB (get h b).bf_buf)
  (* a buffer in use *)
  predicate bok (h: map int buffer_t) (d: map int seqB) (b: int) = b <> 0 /\ (get h b).bf_file <> 0 /\
    (get h b).bf_fileOff = lenB (get d (get h b).bf_file) /\ 0 <= (get h b).bf_buf.cB_n <= lenB (get h b).bf_buf.cB_a <= 0x3fffffffffffffff /\
    lenB (get d (get h b).bf_file) < 1152921504606846976
  (* exactly x has been appended, and no other buffer has been touched *)
  predicate wrote (h: map int buffer_t) (d: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (b: int) (x: seqB) =
    bok h2 d2 b /\ (get h2 b).bf_file = (get h b).bf_file /\ h2 = set h b (get h2 b) /\ d2 = set d (get h b).bf_file (get d2 (get h b).bf_file) /\
    view h2 d2 b = catB (view h d b) x
  function be32 (x: int) : seqB
  axiom be32_def: forall x [be32 x]. 0 <= x < 4294967296 -> lenB (be32 x) = 4 /\ getB (be32 x) 0 = div x 16777216 /\ getB (be32 x) 1 = mod (div x 65536) 256 /\
    getB (be32 x) 2 = mod (div x 256) 256 /\ getB (be32 x) 3 = mod x 256
  function be64 (x: int) : seqB
  axiom be64_def: forall x [be64 x]. 0 <= x < 18446744073709551616 -> lenB (be64 x) = 8 /\ getB (be64 x) 0 = div x 72057594037927936 /\ getB (be64 x) 1 = mod (div x 281474976710656) 256 /\
    getB (be64 x) 2 = mod (div x 1099511627776) 256 /\ getB (be64 x) 3 = mod (div x 4294967296) 256 /\
    getB (be64 x) 4 = mod (div x 16777216) 256 /\ getB (be64 x) 5 = mod (div x 65536) 256 /\ getB (be64 x) 6 = mod (div x 256) 256 /\ getB (be64 x) 7 = mod x 256
  function be24 (x: int) : seqB
  axiom be24_def: forall x [be24 x]. 0 <= x < 16777216 -> lenB (be24 x) = 3 /\ getB (be24 x) 0 = div x 65536 /\ getB (be24 x) 1 = mod (div x 256) 256 /\ getB (be24 x) 2 = mod x 256
  let ghost wrote_none (h: map int buffer_t) (d: map int seqB) (b: int) : unit
    requires { bok h d b } ensures { wrote h d h d b emptyB }
  = assert { eqB (view h d b) (catB (view h d b) emptyB) }
  let ghost wrote_more (h: map int buffer_t) (d: map int seqB) (h1: map int buffer_t) (d1: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (b: int) (x y: seqB) : unit
    requires { wrote h d h1 d1 b x /\ wrote h1 d1 h2 d2 b y } ensures { wrote h d h2 d2 b (catB x y) }
  = assert { eqB (catB (view h d b) (catB x y)) (catB (catB (view h d b) x) y) }
  (* what has been appended between two states *)
  function added (h: map int buffer_t) (d: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (b: int) : seqB =
    subB (view h2 d2 b) (lenB (view h d b)) (lenB (view h2 d2 b))
  let ghost wrote_added (h: map int buffer_t) (d: map int seqB) (h2: map int buffer_t) (d2: map int seqB) (b: int) (x: seqB) : unit
    requires { wrote h d h2 d2 b x } ensures { added h d h2 d2 b = x }
  = assert { eqB (added h d h2 d2 b) x }
  predicate iszero (s: seqB) = forall i [getB s i]. 0 <= i < lenB s -> getB s i = 0
endwhy

func index.(*Buffer).Flush
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [nothing is lost] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b emptyB
  ensures [everything is in the file] (get h_buffer_t b).bf_buf.cB_n = 0
  at return *: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) emptyB) }
  at exit: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) emptyB) }

func index.(*Buffer).Write
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [the bytes are appended] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b x
  at return *: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) x) }
  at exit: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) x) }

func index.(*Buffer).WriteByte
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [the byte is appended] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b (snocB emptyB x)
  at return *: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) (snocB emptyB x)) }

func index.(*Buffer).WriteString
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [the bytes are appended] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b s
  at return *: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) s) }
  at exit: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) s) }

func index.(*Buffer).Offset
  requires bok h_buffer_t g_disk b
  ensures [the offset is the number of bytes written] res0 = lenB (view h_buffer_t g_disk b)

func index.(*Buffer).WriteTrigram
  writes g_disk
  requires bok h_buffer_t g_disk b /\ 0 <= t < 16777216
  ensures [three bytes, the high one first] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b (be24 t)
  at exit: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) (be24 t)) }

func index.(*Buffer).WriteVarint
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [the varint is appended] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b (uvenc x)
  ensures 0 <= x
  at exit: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) (uvenc x)) }

func index.(*Buffer).writeUint32
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [four bytes, the high one first] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b (be32 x)
  ensures 0 <= x < 4294967296
  at exit: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) (be32 x)) }

func index.(*Buffer).writeUint64
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [eight bytes, the high one first] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b (be64 x)
  ensures 0 <= x
  at exit: assert { eqB (view h_buffer_t g_disk b) (catB (view (old h_buffer_t) (old g_disk) b) (be64 x)) }

func index.(*Buffer).WriteUint
  writes g_disk
  requires bok h_buffer_t g_disk b
  ensures [as wide as the version asks] wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b (if g_writeVersion = 1 then be32 x else be64 x)
  ensures 0 <= x
  ensures g_writeVersion = 1 -> x < 4294967296

func index.(*Buffer).Align
  writes g_disk
  requires bok h_buffer_t g_disk b /\ 0 < n
  at return 1: assert { eqB (view (old h_buffer_t) (old g_disk) b) (catB (view (old h_buffer_t) (old g_disk) b) emptyB) }; assert { wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b emptyB }
  at loop 1 before: assert { eqB (view (old h_buffer_t) (old g_disk) b) (catB (view (old h_buffer_t) (old g_disk) b) emptyB) }; assert { wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b emptyB }; let ghost ref gz = emptyB in
  at loop 1 end: assert { eqB (catB (view (old h_buffer_t) (old g_disk) b) (snocB gz 0)) (catB (catB (view (old h_buffer_t) (old g_disk) b) gz) (snocB emptyB 0)) }; gz <- snocB gz 0
  loop 1
    noterm
    invariant bok h_buffer_t g_disk b
    invariant iszero gz /\ wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b gz
  ensures [only zero bytes are added] exists z. iszero z /\ wrote (old h_buffer_t) (old g_disk) h_buffer_t g_disk b z
  ensures g_writeVersion <> 1 -> mod (lenB (view h_buffer_t g_disk b)) n = 0
