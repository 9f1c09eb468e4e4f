# C13: path order.
unit path
package index
use index.Path

extern strings.HasPrefix as=hasprefix
  val hasprefix (s p: seqB) : bool
    ensures { result <-> isprefix p s }
extern strings.HasSuffix as=hassuffix
  val hassuffix (s p: seqB) : bool
    ensures { result <-> issuffix p s }

why
  predicate isprefix (p s: seqB) = lenB p <= lenB s /\ forall i [getB s i|getB p i]. 0 <= i < lenB p -> getB s i = getB p i
  predicate issuffix (p s: seqB) = lenB p <= lenB s /\ forall i [getB p i]. 0 <= i < lenB p -> getB s (lenB s - lenB p + i) = getB p i
  (* the order: lexicographic, the separator lowest *)
  function key (c: int) : int = if c = 47 then 0 else c
  predicate agree (a b: seqB) (n: int) = n <= lenB a /\ n <= lenB b /\ forall i [getB a i|getB b i]. 0 <= i < n -> key (getB a i) = key (getB b i)
  predicate differ (a b: seqB) (n: int) =
    0 <= n <= lenB a /\ n <= lenB b /\ agree a b n /\
      ((n = lenB a /\ n < lenB b) \/ (n < lenB a /\ n < lenB b /\ key (getB a n) < key (getB b n)))
  predicate less (a b: seqB) = exists n. differ a b n
  predicate same (a b: seqB) = lenB a = lenB b /\ agree a b (lenB a)
  (* q and what lies beneath it *)
  predicate beneath (p q: seqB) = isprefix q p /\ (lenB p = lenB q \/ (lenB q > 0 /\ getB q (lenB q - 1) = 47) \/ getB p (lenB q) = 47)
  predicate nonul (p: seqB) = forall i. 0 <= i < lenB p -> getB p i <> 0
  (* a valid name: no control characters, but for the \001 that separates a file from its zip archive *)
  predicate valid (p: seqB) = forall i. 0 <= i < lenB p -> getB p i = 1 \/ getB p i >= 32
  (* in the archive q *)
  predicate inzip (p q: seqB) = isprefix q p /\ lenB p > lenB q /\ getB p (lenB q) = 1
endwhy

why Order
  lemma less_irreflexive: forall a. not (less a a)
  lemma less_antisymmetric: forall a b n m. differ a b n -> differ b a m -> false
     by (if n <= m then true else true)
  lemma less_transitive: forall a b c n m. differ a b n -> differ b c m -> differ a c (if n < m then n else m)
  lemma less_not_same: forall a b n. differ a b n -> not (same a b)
  lemma same_left: forall a b c. same a b -> less b c -> less a c
  lemma same_right: forall a b c. less a b -> same b c -> less a c
  lemma equal_only_for_the_same_path: forall a b. nonul a -> nonul b -> same a b -> a = b by eqB a b
  lemma directory_first: forall p q. beneath p q -> p = q \/ less q p
     by (lenB p = lenB q /\ eqB p q) \/ (lenB p > lenB q /\ differ q p (lenB q))
  predicate le (a b: seqB) = less a b \/ same a b
  (* whatever is ordered between two paths beneath a directory is beneath it *)
  let ghost contiguous (q p x r: seqB) : unit
    requires { nonul q /\ nonul p /\ nonul x /\ nonul r }
    requires { beneath p q /\ beneath r q }
    requires { le p x /\ le x r }
    ensures { beneath x q }
  = assert { forall i. 0 <= i < lenB q -> getB p i = getB q i /\ getB r i = getB q i };
    if pure { lenB x < lenB q } then begin
      assert { same p x -> false };
      assert { same x r -> false };
      assert { forall n m. differ p x n -> differ x r m -> false };
      absurd
    end;
    assert { isprefix q x by (forall n m. differ p x n -> differ x r m -> (forall i. 0 <= i < lenB q -> getB x i = getB q i)
        by (n >= lenB q \/ m >= lenB q \/ false)) /\ (same p x -> isprefix q x) /\ (same x r -> isprefix q x) };
    if pure { lenB x = lenB q \/ (lenB q > 0 /\ getB q (lenB q - 1) = 47) } then ()
    else begin
      assert { same x r -> getB x (lenB q) = 47 };
      assert { forall m. differ x r m -> getB x (lenB q) = 47 by m >= lenB q };
    end
  let ghost contiguous_zip (q p x r: seqB) : unit
    requires { valid q /\ valid p /\ valid x /\ valid r }
    requires { inzip p q /\ inzip r q }
    requires { le p x /\ le x r }
    ensures { inzip x q }
  = assert { forall i. 0 <= i < lenB q -> getB p i = getB q i /\ getB r i = getB q i };
    if pure { lenB x <= lenB q } then begin
      assert { same p x -> false };
      assert { same x r -> false };
      assert { forall n m. differ p x n -> differ x r m -> false };
      absurd
    end;
    assert { isprefix q x by (forall n m. differ p x n -> differ x r m -> (forall i. 0 <= i < lenB q -> getB x i = getB q i)
        by (n >= lenB q \/ m >= lenB q \/ false)) /\ (same p x -> isprefix q x) /\ (same x r -> isprefix q x) };
    assert { same x r -> getB x (lenB q) = 1 };
    assert { same p x -> getB x (lenB q) = 1 };
    assert { forall n m. differ p x n -> differ x r m -> getB x (lenB q) = 1 by n >= lenB q /\ m >= lenB q }
  (* every path a root stands for lies from the root to below root+"\002": the range that Merge replaces *)
  let ghost root_range (q x: seqB) (lim: seqB) : unit
    requires { valid q /\ valid x /\ lenB q > 0 /\ getB q (lenB q - 1) <> 47 }
    requires { lenB lim = lenB q + 1 /\ isprefix q lim /\ getB lim (lenB q) = 2 }
    ensures { (le q x /\ less x lim) <-> (beneath x q \/ inzip x q) }
  = assert { beneath x q \/ inzip x q -> le q x by (if lenB x = lenB q then same q x else differ q x (lenB q)) };
    assert { beneath x q \/ inzip x q -> less x lim by differ x lim (lenB q) };
    assert { forall m. differ x lim m -> m <= lenB q };
    assert { same q x -> beneath x q };
    assert { forall n m. differ q x n -> differ x lim m -> beneath x q \/ inzip x q by n = lenB q /\ m = lenB q /\ isprefix q x }
endwhy

func index.(Path).Compare
  loop 1
    invariant agree p.path_s q.path_s i
  ensures [negative exactly when p comes first] res0 < 0 <-> less p.path_s q.path_s
  ensures [positive exactly when q comes first] res0 > 0 <-> less q.path_s p.path_s
  ensures [zero exactly when the paths agree but for NUL and slash] res0 = 0 <-> same p.path_s q.path_s

func index.(Path).HasPathPrefix
  ensures [exactly the path itself and what lies beneath it] res0 <-> beneath p.path_s parent.path_s
