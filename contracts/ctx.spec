# C12: context lines.
unit ctx
package regexp
nilable []byte
seq [][]byte BB
use []byte [][]byte
global nl lit

why
  predicate ws (c: int) = c = 32 \/ c = 9
  predicate white (c: int) = c = 32 \/ c = 9 \/ c = 13 \/ c = 10
  predicate isprefix (p s: seqB) = lenB p <= lenB s /\ forall i [getB s i|getB p i]. 0 <= i < lenB p -> getB s i = getB p i
  predicate wsonly (p: seqB) = forall i [getB p i]. 0 <= i < lenB p -> ws (getB p i)
  (* s without its trailing white space *)
  function chomped (s: seqB) : seqB
  axiom chomped_def: forall s [chomped s]. let c = chomped s in lenB c <= lenB s /\ c = subB s 0 (lenB c) /\
    (lenB c > 0 -> not (white (getB s (lenB c - 1)))) /\ (forall k [getB s k]. lenB c <= k < lenB s -> white (getB s k))
  (* number of newlines among the first j bytes *)
  function nls (b: seqB) (j: int) : int
  axiom nls_0: forall b [nls b 0]. nls b 0 = 0
  axiom nls_s: forall b j. 0 <= j < lenB b -> nls b (j+1) = nls b j + (if getB b j = 10 then 1 else 0)
  (* where line k starts: just past the k-th newline *)
  function lst (b: seqB) (k: int) : int
  axiom lst_0: forall b [lst b 0]. lst b 0 = 0
  axiom lst_s: forall b k [lst b k]. 0 < k <= nls b (lenB b) -> 0 < lst b k <= lenB b /\ getB b (lst b k - 1) = 10 /\ nls b (lst b k) = k
  predicate nonl (b: seqB) (i j: int) = forall k [getB b k]. i <= k < j -> getB b k <> 10
  let rec ghost nls_mono (b: seqB) (i j: int) : unit
    requires { 0 <= i <= j <= lenB b } ensures { nls b i <= nls b j } ensures { nonl b i j -> nls b i = nls b j }
    variant { j - i }
  = if i < j then begin nls_mono b i (j-1); assert { nls b ((j-1)+1) = nls b (j-1) + (if getB b (j-1) = 10 then 1 else 0) } end
  let rec ghost nls_sub (b: seqB) (lo hi k: int) : unit
    requires { 0 <= lo <= hi <= lenB b /\ 0 <= k <= hi - lo } ensures { nls (subB b lo hi) k = nls b (lo + k) - nls b lo }
    variant { k }
  = if k > 0 then begin nls_sub b lo hi (k-1);
      assert { nls (subB b lo hi) ((k-1)+1) = nls (subB b lo hi) (k-1) + (if getB (subB b lo hi) (k-1) = 10 then 1 else 0) };
      assert { nls b ((lo+k-1)+1) = nls b (lo+k-1) + (if getB b (lo+k-1) = 10 then 1 else 0) } end
  let ghost nls_next (b: seqB) (j: int) : unit
    requires { 0 <= j < lenB b } ensures { nls b (j+1) = nls b j + (if getB b j = 10 then 1 else 0) } = ()
  (* the last n lines before the end of b (each with its newline) and what follows the last newline *)
  predicate suffix_at (b: seqB) (n st: int) = 0 <= st <= lenB b /\
    ((st = 0 /\ nls b (lenB b) <= n) \/ (st > 0 /\ getB b (st-1) = 10 /\ nls b (lenB b) - nls b st = n))
  (* the first n lines of b *)
  predicate prefix_at (b: seqB) (n en: int) = 0 <= en <= lenB b /\
    ((en = lenB b /\ nls b en < n) \/ (nls b en = n /\ (en > 0 -> getB b (en-1) = 10)))
  predicate tidy (c: seqB) = nnB c /\ (lenB c > 0 -> not (white (getB c (lenB c - 1))))
  predicate fits (c p: seqB) = lenB c = 0 \/ isprefix p c
  (* r shows the line c with the indentation p taken away *)
  predicate shows (r c p: seqB) = fits (chomped c) p /\ if lenB (chomped c) < lenB p then lenB r = 0 else r = subB (chomped c) (lenB p) (lenB (chomped c))
  (* line k with its newline, and without *)
  function piece (b: seqB) (k: int) : seqB
  axiom piece_def: forall b k [piece b k]. 0 <= k <= nls b (lenB b) -> piece b k = subB b (lst b k) (if k < nls b (lenB b) then lst b (k+1) else lenB b) /\
    lenB (piece b k) = (if k < nls b (lenB b) then lst b (k+1) else lenB b) - lst b k
  function bare (b: seqB) (k: int) : seqB
  axiom bare_def: forall b k [bare b k]. 0 <= k <= nls b (lenB b) -> bare b k = subB b (lst b k) (if k < nls b (lenB b) then lst b (k+1) - 1 else lenB b) /\
    lenB (bare b k) = (if k < nls b (lenB b) then lst b (k+1) - 1 else lenB b) - lst b k
  (* the last line, without a newline *)
  function rest (b: seqB) : int = if lst b (nls b (lenB b)) < lenB b then 1 else 0
  (* text that ends with a newline has no line without one *)
  let ghost last_line (b: seqB) : unit
    requires { lenB b > 0 -> getB b (lenB b - 1) = 10 }
    ensures { lst b (nls b (lenB b)) = lenB b }
  = let n = lenB b in
    if pure { n > 0 } then begin
      nls_next b (n-1); nls_mono b 0 (n-1);
      let e = lst b (nls b n) in
      assert { nls b n > 0 };
      if pure { e < n } then nls_mono b e (n-1)
    end
endwhy

extern bytes.LastIndex
  val x_bytes_LastIndex (s sep: seqB) : int
    requires { [@expl:one newline is looked for] lenB sep = 1 /\ getB sep 0 = 10 }
    ensures { -1 <= result < lenB s } ensures { result >= 0 -> getB s result = 10 } ensures { nonl s (result+1) (lenB s) }
extern bytes.IndexByte
  val x_bytes_IndexByte (s: seqB) (c: int) : int
    ensures { -1 <= result < lenB s } ensures { result >= 0 -> getB s result = c }
    ensures { forall k [getB s k]. 0 <= k < (if result >= 0 then result else lenB s) -> getB s k <> c }
extern bytes.SplitAfter
  val x_bytes_SplitAfter (s sep: seqB) : seqBB
    requires { [@expl:split at newlines] lenB sep = 1 /\ getB sep 0 = 10 }
    ensures { lenBB result = nls s (lenB s) + 1 } ensures { forall k [getBB result k]. 0 <= k < lenBB result -> getBB result k = piece s k }
extern bytes.Split
  val x_bytes_Split (s sep: seqB) : seqBB
    requires { [@expl:split at newlines] lenB sep = 1 /\ getB sep 0 = 10 }
    ensures { lenBB result = nls s (lenB s) + 1 } ensures { forall k [getBB result k]. 0 <= k < lenBB result -> getBB result k = bare s k }

func regexp.chomp
  loop 1
    invariant 0 <= i <= lenB s /\ forall k [getB s k]. i <= k < lenB s -> white (getB s k)
  ensures [trailing white space is removed] res0 = chomped s

func regexp.cutPrefix
  requires fits line prefix
  ensures [the indentation is removed] if lenB line < lenB prefix then lenB res0 = 0 else res0 = subB line (lenB prefix) (lenB line)

func regexp.updatePrefix
  requires nnB line /\ (lenB line > 0 -> not (white (getB line (lenB line - 1)))) /\ wsonly prefix
  loop 1
    invariant 0 <= i <= lenB line /\ forall k [getB line k]. 0 <= k < i -> ws (getB line k)
  loop 2
    invariant 0 <= i <= lenB line /\ i <= lenB prefix /\ forall k [getB line k|getB prefix k]. 0 <= k < i -> getB line k = getB prefix k
  at return 2: assert { lenB line = 0 by lenB line > 0 -> false by white (getB line (lenB line - 1)) by ws (getB prefix (lenB line - 1)) }
  ensures [a common prefix of white space] nnB res0 /\ wsonly res0 /\ fits line res0 /\ (nnB prefix -> isprefix res0 prefix)

func regexp.countNL
  at loop 1 begin: let ghost b0 = b in ()
  at call IndexByte#1 after: if pure { i >= 0 } then begin nls_mono b0 0 i; nls_next b0 i; nls_sub b0 (i+1) (lenB b0) (lenB b0 - (i+1)) end else nls_mono b0 0 (lenB b0)
  loop 1
    invariant 0 <= n <= lenB b_in - lenB b /\ n + nls b (lenB b) = nls b_in (lenB b_in)
    variant lenB b
  ensures [newlines are counted] res0 = nls b (lenB b)

func regexp.lineSuffixLen
  requires 0 <= n
  at loop 1 begin: let ghost e0 = end_ in ()
  at call LastIndex#1 after: if pure { j >= 0 } then begin nls_next buf j; nls_mono buf (j+1) e0; assert { nonl buf (j+1) e0 } end else begin nls_mono buf 0 e0; assert { nonl buf 0 e0 } end
  at call LastIndex#2 after: if pure { j >= 0 } then begin nls_next buf j; nls_mono buf (j+1) end_; assert { nonl buf (j+1) end_ } end else begin nls_mono buf 0 end_; assert { nonl buf 0 end_ } end
  loop 1
    invariant 0 <= i <= n /\ 0 <= end_ <= lenB buf
    invariant end_ < lenB buf -> getB buf end_ = 10
    invariant nls buf end_ = nls buf (lenB buf) - i
  ensures [the last n lines] suffix_at buf n (lenB buf - res0)

func regexp.linePrefixLen
  requires 0 <= lines
  at loop 1 begin: let ghost s0 = start in ()
  at call IndexByte#1 after: if pure { j >= 0 } then begin assert { nonl buf s0 (s0+j) }; nls_mono buf s0 (s0+j); nls_next buf (s0+j) end else begin assert { nonl buf s0 (lenB buf) }; nls_mono buf s0 (lenB buf) end
  loop 1
    invariant 0 <= i <= lines /\ 0 <= start <= lenB buf /\ nls buf start = i /\ (start > 0 -> getB buf (start-1) = 10)
  ensures [the first lines] prefix_at buf lines res0

func regexp.lineContext
  requires 0 <= numBefore /\ 0 <= numAfter /\ nnB buf
  requires 0 <= lineStart <= lineEnd <= lenB buf /\ (lineStart > 0 -> getB buf (lineStart-1) = 10)
  at entry: let ghost hb = subB buf 0 lineStart in let ghost ha = subB buf lineEnd (lenB buf) in
  at call SplitAfter#1 after: let ghost cb = beforeChunk in let ghost st = lineStart - lenB cb in
    nls_sub buf 0 lineStart lineStart; nls_sub buf 0 lineStart st; nls_sub buf st lineStart (lineStart - st); last_line cb; nls_mono cb 0 (lenB cb);
    assert { cb = subB buf st lineStart }; assert { suffix_at hb numBefore st }
  at call Split#1 after: let ghost ca = afterChunk in let ghost en = lenB ca in let ghost nb = lenBB before in
    nls_mono ca 0 en;
    assert { ca = subB buf lineEnd (lineEnd + en) }; assert { prefix_at ha numAfter en }
  at loop 1 before: assert { lenBB before = nls cb (lenB cb) }; assert { forall k [getBB before k]. 0 <= k < lenBB before -> getBB before k = piece cb k /\ nnB (piece cb k) }
  at loop 2 before: assert { lenBB after = nls ca (lenB ca) + rest ca }; assert { forall k [getBB after k]. 0 <= k < lenBB after -> getBB after k = bare ca k /\ nnB (bare ca k) }
  at loop 3 before: assert { forall k [getBB before k]. 0 <= k < lenBB before -> tidy (getBB before k) }; assert { forall k [getBB after k]. 0 <= k < lenBB after -> tidy (getBB after k) }; assert { tidy line }
  at return *: assert { wsonly prefix /\ shows line (subB buf lineStart lineEnd) prefix };
    assert { forall k [getBB before k]. 0 <= k < lenBB before -> shows (getBB before k) (piece cb k) prefix };
    assert { forall k [getBB after k]. 0 <= k < lenBB after -> shows (getBB after k) (bare ca k) prefix };
    assert { cb = subB buf st lineStart /\ ca = subB buf lineEnd (lineEnd + en) }
  loop 1
    invariant lenBB before = lenBB before_L1
    invariant forall k [getBB before k]. 0 <= k < lenBB before -> getBB before k = if k < ix1 then chomped (piece cb k) else piece cb k
  loop 2
    invariant lenBB after = lenBB after_L2
    invariant forall k [getBB after k]. 0 <= k < lenBB after -> getBB after k = if k < ix2 then chomped (bare ca k) else bare ca k
  loop 3
    invariant nnB prefix /\ wsonly prefix /\ fits line prefix /\ forall k [getBB before k]. 0 <= k < ix3 -> fits (getBB before k) prefix
  loop 4
    invariant nnB prefix /\ wsonly prefix /\ fits line prefix /\ (forall k [getBB before k]. 0 <= k < lenBB before -> fits (getBB before k) prefix) /\
      forall k [getBB after k]. 0 <= k < ix4 -> fits (getBB after k) prefix
  loop 5
    invariant lenBB before = lenBB before_L5
    invariant forall k [getBB before k]. 0 <= k < lenBB before -> if k < ix5 then shows (getBB before k) (piece cb k) prefix else getBB before k = chomped (piece cb k)
  loop 6
    invariant lenBB after = lenBB after_L6
    invariant forall k [getBB after k]. 0 <= k < lenBB after -> if k < ix6 then shows (getBB after k) (bare ca k) prefix else getBB after k = chomped (bare ca k)
  ensures [the neighbouring lines, equally unindented] exists p st en. wsonly p /\ suffix_at (subB buf 0 lineStart) numBefore st /\
    prefix_at (subB buf lineEnd (lenB buf)) numAfter en /\ shows line (subB buf lineStart lineEnd) p /\
    (let c = subB buf st lineStart in lenBB before = nls c (lenB c) /\ forall k [getBB before k]. 0 <= k < lenBB before -> shows (getBB before k) (piece c k) p) /\
    (let c = subB buf lineEnd (lineEnd + en) in lenBB after = nls c (lenB c) + rest c /\ forall k [getBB after k]. 0 <= k < lenBB after -> shows (getBB after k) (bare c k) p)
