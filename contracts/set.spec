# C16: sparse sets.
unit set
package sparse
use []uint32

why
  (* representation invariant, abstract view *)
  predicate memU (d: seqU32) (x: int)
  axiom memU_def: forall d x [memU d x]. memU d x <-> exists i. 0 <= i < lenU32 d /\ getU32 d i = x
  predicate mem (s: set_t) (x: int) = memU s.set_dense x
  predicate wf (s: set_t) =
    lenU32 s.set_sparse <= 4294967295 /\
    lenU32 s.set_dense <= lenU32 s.set_sparse /\
    (forall i [getU32 s.set_dense i]. 0 <= i < lenU32 s.set_dense ->
       getU32 s.set_dense i < lenU32 s.set_sparse /\ getU32 s.set_sparse (getU32 s.set_dense i) = i)
  function capacity (s: set_t) : int = lenU32 s.set_sparse

  (* what follows from the invariant for users: each element is listed once *)
  lemma listed_once: forall s i j. wf s -> 0 <= i < j < lenU32 s.set_dense -> getU32 s.set_dense i <> getU32 s.set_dense j

  let rec ghost pigeon (s: seqU32) (n: int) : unit
    requires { 0 <= n < lenU32 s }
    requires { forall i. 0 <= i < lenU32 s -> 0 <= getU32 s i < n }
    ensures { exists i j. 0 <= i < j < lenU32 s /\ getU32 s i = getU32 s j }
    variant { n }
  = if n > 0 then begin
      let ref k = -1 in
      let m = plenU32 s in
      let ref i = 0 in
      while i < m do
        invariant { 0 <= i <= m /\ -1 <= k < i }
        invariant { k >= 0 -> getU32 s k = n - 1 }
        invariant { k < 0 -> forall j. 0 <= j < i -> getU32 s j < n - 1 }
        variant { m - i }
        if idxU32 s i = n - 1 then k <- i;
        i <- i + 1
      done;
      if k < 0 then pigeon s (n - 1)
      else begin
        let r = subU32 (updU32 s k (getU32 s (m - 1))) 0 (m - 1) in
        assert { forall j. 0 <= j < m - 1 -> getU32 r j = (if j = k then getU32 s (m-1) else getU32 s j) };
        if pure { exists j. 0 <= j < m /\ j <> k /\ getU32 s j = n - 1 } then ()
        else begin
          assert { forall j. 0 <= j < m - 1 -> getU32 r j < n - 1 };
          pigeon r (n - 1);
          assert { forall a b. 0 <= a < b < m - 1 -> getU32 r a = getU32 r b ->
             (exists i j. 0 <= i < j < m /\ getU32 s i = getU32 s j)
             by (if a = k then getU32 s b = getU32 s (m-1) else if b = k then getU32 s a = getU32 s (m-1) else getU32 s a = getU32 s b) }
        end
      end
    end

  let ghost room (s: set_t) (x: int) : unit
    requires { wf s /\ 0 <= x < capacity s }
    ensures { mem s x \/ lenU32 s.set_dense < lenU32 s.set_sparse }
  = if pure { not (mem s x) /\ lenU32 s.set_dense = lenU32 s.set_sparse } then begin
      let t = snocU32 s.set_dense x in
      assert { forall i. 0 <= i < lenU32 t -> 0 <= getU32 t i < capacity s };
      pigeon t (lenU32 s.set_sparse);
      assert { forall i j. 0 <= i < j < lenU32 t -> getU32 t i <> getU32 t j
         by (if j = lenU32 s.set_dense then mem s (getU32 s.set_dense i) else getU32 t i = getU32 s.set_dense i /\ getU32 t j = getU32 s.set_dense j) };
      absurd
    end
endwhy

func sparse.NewSet
  ensures [the new set is empty with the given capacity] wf res0 /\ lenU32 res0.set_dense = 0 /\ capacity res0 = max_

func sparse.(*Set).Init
  requires lenU32 s.set_dense = 0
  ensures [an initialised set is empty with the given capacity] wf s /\ lenU32 s.set_dense = 0 /\ capacity s = max_

func sparse.(*Set).Reset
  requires wf s
  ensures [Reset empties the set] wf s /\ lenU32 s.set_dense = 0 /\ capacity s = capacity (old s)

func sparse.(*Set).Add
  requires wf s /\ x < capacity s
  at entry: room s x
  at exit: assert { s.set_dense = snocU32 s_in.set_dense x };
     assert { forall y. memU s.set_dense y -> y = x \/ memU s_in.set_dense y };
     assert { getU32 s.set_dense (lenU32 s_in.set_dense) = x };
     assert { forall y. memU s_in.set_dense y -> memU s.set_dense y
       by exists i. 0 <= i < lenU32 s_in.set_dense /\ getU32 s_in.set_dense i = y /\ getU32 s.set_dense i = y }
  ensures [invariant kept] wf s /\ capacity s = capacity (old s)
  ensures [a present element changes nothing] mem (old s) x -> s.set_dense = (old s).set_dense
  ensures [a new element is listed last] not (mem (old s) x) -> s.set_dense = snocU32 (old s).set_dense x
  ensures [membership after Add] forall y. mem s y <-> (y = x \/ mem (old s) y)

func sparse.(*Set).Has
  requires wf s /\ x < capacity s
  ensures [Has decides membership] res0 <-> mem s x

func sparse.(*Set).Dense
  requires wf s
  ensures [Dense lists the elements in order of first insertion] res0 = s.set_dense

func sparse.(*Set).Len
  requires wf s
  ensures [Len counts the elements] res0 = lenU32 s.set_dense
