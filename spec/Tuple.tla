------------------------------- MODULE Tuple -------------------------------
(***************************************************************************)
(* Tuple sketches: theta sketches whose keys carry a summary.              *)
(*                                                                         *)
(* An abstract tuple sketch is [emp, theta, set, m]: a theta sketch plus   *)
(* the function m from its keys to summaries.  Summaries are sequences of  *)
(* integers; what an update and what the merge policy do to them depends   *)
(* on the kind of sketch:                                                  *)
(*   list, listf, val   the sequence of all values, in order               *)
(*   strs               the last value offered; the policy concatenates    *)
(*   nums               two counters; updates add <<v,1>>, the policy is   *)
(*                      order sensitive on the first and adds the second   *)
(***************************************************************************)
EXTENDS Theta, TLC

Zero(kind) == IF kind = "nums" THEN <<0, 0>> ELSE <<>>
Offer(kind, s, v) ==
    CASE kind = "nums" -> <<s[1] + v, s[2] + 1>>
      [] kind = "strs" -> <<v>>
      [] OTHER -> Append(s, v)
Merge(kind, a, b) ==
    IF kind = "nums" THEN <<(2 * a[1] + b[1]) % 97, (a[2] + b[2]) % 97>> ELSE a \o b

(* fold a sequence of values into a summary                                *)
RECURSIVE OfferAll(_, _, _, _)
OfferAll(kind, s, vs, i) == IF i > Len(vs) THEN s ELSE OfferAll(kind, Offer(kind, s, vs[i]), vs, i + 1)

(* the values a block of updates offers with key h, in order               *)
ValuesOf(h, ks, vs) ==
    LET idx == SelectSeq([i \in DOMAIN ks |-> i], LAMBDA i : ks[i] = h)
    IN [j \in DOMAIN idx |-> vs[idx[j]]]

(* every retained key carries exactly the values offered with it           *)
FoldRel(kind, pre, ks, vs, post) ==
    LET touched == {ks[i] : i \in DOMAIN ks} IN
    /\ DOMAIN post.m = post.set
    /\ \A h \in post.set :
         post.m[h] = IF h \in touched
                     THEN OfferAll(kind, IF h \in pre.set THEN pre.m[h] ELSE Zero(kind), ValuesOf(h, ks, vs), 1)
                     ELSE IF h \in pre.set THEN pre.m[h] ELSE <<-99>>

(* the same summaries on a subset of the keys                              *)
SameSums(r, s) == r.set \subseteq s.set /\ DOMAIN r.m = r.set /\ \A h \in r.set : r.m[h] = s.m[h]

FilterRel(pre, em, Pred(_), post) ==
    /\ post.set = {h \in pre.set : Pred(pre.m[h])}
    /\ SameSums(post, pre)
    /\ post.theta = pre.theta
    /\ post.emp = (~em /\ post.set = {})

(* accumulators of the set operations                                      *)
MergeMaps(kind, A, ma, B, mb, S) ==
    [h \in S |-> IF h \in A THEN (IF h \in B THEN Merge(kind, ma[h], mb[h]) ELSE ma[h]) ELSE mb[h]]

TUnionInit(k, t0) == [UnionInit(k, t0) EXCEPT !.U = {}] @@ [m |-> <<>>]
TUnionStep(kind, u, s) ==
    IF s.emp THEN u
    ELSE LET n == UnionStep(u, s)
         IN [n EXCEPT !.m = MergeMaps(kind, u.U, u.m, s.set, s.m, n.U)]
TUnionResult(u, r) ==
    /\ UnionResult(u, r)
    /\ DOMAIN r.m = r.set /\ \A h \in r.set : r.m[h] = u.m[h]

TInterInit(mx) == InterInit(mx) @@ [m |-> <<>>]
TInterStep(kind, i, s, mx) ==
    LET n == InterStep(i, s, mx)
    IN [m |-> [h \in n.set |-> IF i.valid THEN Merge(kind, i.m[h], s.m[h]) ELSE s.m[h]]] @@ n
TInterResult(i, r) ==
    /\ InterResult(i, r)
    /\ DOMAIN r.m = r.set /\ \A h \in r.set : r.m[h] = i.m[h]
=============================================================================
