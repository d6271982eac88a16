----------------------------- MODULE Reservoir -----------------------------
(***************************************************************************)
(* Reservoir sampling.  A sketch is [k, n, s]: n items were offered and s  *)
(* is the bag of those it holds (every offered occurrence has a number; it *)
(* may come twice only if the same occurrence was merged in twice).        *)
(* A union is [mk, g]: g is its gadget, a sketch, with k = 0 when nothing  *)
(* was offered yet.  Which items a full reservoir gives up is chance, so   *)
(* the steps are relations.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bags, TLC

MinOf(a, b) == IF a <= b THEN a ELSE b

Fresh(k) == [k |-> k, n |-> 0, s |-> EmptyBag]
SizeOk(a) == BagCardinality(a.s) = MinOf(a.n, a.k)
Exact(a) == a.n <= a.k

(* the occurrences lo .. hi are offered, one after the other               *)
OfferOk(a, lo, hi, b) ==
    /\ b.k = a.k /\ b.n = a.n + (hi - lo + 1) /\ SizeOk(b)
    /\ \A x \in DOMAIN b.s : b.s[x] <= (IF x \in DOMAIN a.s THEN a.s[x] ELSE 0) + (IF x \in lo .. hi THEN 1 ELSE 0)

(* the outcomes of offering one item                                       *)
Offers(a, x) ==
    LET b == [a EXCEPT !.n = @ + 1] X == SetToBag({x}) IN
    IF a.n < a.k THEN {[b EXCEPT !.s = @ (+) X]}
    ELSE {b} \cup {[b EXCEPT !.s = (@ (-) SetToBag({y})) (+) X] : y \in DOMAIN a.s}

----------------------------------------------------------------------------
NoGadget == [k |-> 0, n |-> 0, s |-> EmptyBag]
NewUnion(mk) == [mk |-> mk, g |-> NoGadget]

(* A source of k beyond the union's is resampled to the union's first: it  *)
(* keeps its count, and its items are offered to a smaller reservoir.      *)
(* A source that lost nothing is offered item by item; one that sampled    *)
(* cannot be, so the lighter of the two reservoirs is merged into the      *)
(* other one, whose k stays.                                               *)
MergeK(u, src) ==
    LET a == u.g bk == MinOf(src.k, u.mk) bn == src.n IN
    IF a.k = 0 THEN (IF bn <= bk THEN u.mk ELSE bk)
    ELSE IF bn <= bk THEN a.k
    ELSE IF a.n < a.k THEN bk
    ELSE IF bn * (a.k - 1) < a.n * bk THEN a.k
    ELSE bk
MergeOk(u, src, v) ==
    /\ v.mk = u.mk
    /\ v.g.k = MergeK(u, src) /\ v.g.n = u.g.n + src.n
    /\ SizeOk(v.g) /\ v.g.s \sqsubseteq (u.g.s (+) src.s)
(* all outcomes                                                            *)
Merges(u, src) ==
    {[mk |-> u.mk, g |-> [k |-> MergeK(u, src), n |-> u.g.n + src.n, s |-> q]] :
        q \in {q \in SubBag(u.g.s (+) src.s) : BagCardinality(q) = MinOf(u.g.n + src.n, MergeK(u, src))}}

Base(u) == IF u.g.k = 0 THEN Fresh(u.mk) ELSE u.g
AddOk(u, lo, hi, v) == v.mk = u.mk /\ OfferOk(Base(u), lo, hi, v.g)
Adds(u, x) == {[u EXCEPT !.g = q] : q \in Offers(Base(u), x)}
(* cleared, and ready for more of the same                                 *)
ResetOk(u, v) == v.mk = u.mk /\ v.g.n = 0 /\ v.g.s = EmptyBag /\ v.g.k \in {0, u.g.k}

(* A restored union may start again with its full k while nothing was lost *)
RestoredOk(u, v) ==
    /\ v.mk = u.mk
    /\ IF u.g.n = 0 THEN v.g.n = 0 /\ v.g.s = EmptyBag /\ v.g.k \in {0, u.g.k}
       ELSE v.g.n = u.g.n /\ v.g.s = u.g.s /\ (v.g.k = u.g.k \/ (u.g.n <= u.g.k /\ v.g.k = u.mk))
=============================================================================
