------------------------------- MODULE VarOpt -------------------------------
(***************************************************************************)
(* VarOpt sampling.  A sketch is [k, n, h, r, wr]:                         *)
(*   h   the heavy items: a set of <<x, w, m>> - item, weight, mark (marks *)
(*       are for the gadget of a union, FALSE otherwise)                   *)
(*   r   the set of the light items it kept, all of them standing for the  *)
(*       same weight wr / |r|                                              *)
(* Which light items survive is chance, but nothing else is.  The spec     *)
(* therefore steps on [k, n, h, cs, rc, wr] - any rc of the candidates cs  *)
(* may be the r of the outcome.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MinOf(a, b) == IF a <= b THEN a ELSE b
Wts(h) == LET RECURSIVE f(_) f(q) == IF q = {} THEN 0 ELSE LET e == CHOOSE e \in q : TRUE IN e[2] + f(q \ {e}) IN f(h)
ByWt(h) == SetToSortSeq(h, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))

Fresh(k) == [k |-> k, n |-> 0, h |-> {}, r |-> {}, wr |-> 0]
Abs(a) == [k |-> a.k, n |-> a.n, h |-> a.h, cs |-> a.r, rc |-> Cardinality(a.r), wr |-> a.wr]
Match(a, b) == b.k = a.k /\ b.n = a.n /\ b.h = a.h /\ b.wr = a.wr /\ b.r \subseteq a.cs /\ Cardinality(b.r) = a.rc
Outcomes(a) == {[k |-> a.k, n |-> a.n, h |-> a.h, r |-> q, wr |-> a.wr] : q \in {q \in SUBSET a.cs : Cardinality(q) = a.rc}}

(* One of the items has to go.  The light ones, and then the lightest      *)
(* heavy ones as long as they are below the threshold the candidates       *)
(* would have with them, become candidates; all but one survive and share  *)
(* the whole weight.                                                       *)
Drop(a) ==
    LET hs == ByWt(a.h)
        RECURSIVE grow(_, _, _)
        grow(i, num, wt) ==
            IF i > Len(hs) \/ (num >= 2 /\ hs[i][2] * num >= wt + hs[i][2]) THEN <<i, num, wt>>
            ELSE grow(i + 1, num + 1, wt + hs[i][2])
        g == grow(1, a.rc, a.wr)
    IN [a EXCEPT !.h = {hs[i] : i \in g[1] .. Len(hs)}, !.cs = @ \cup {hs[i][1] : i \in 1 .. g[1] - 1}, !.rc = g[2] - 1, !.wr = g[3]]

Offer(a, x, w, m) ==
    LET b == [a EXCEPT !.n = @ + 1, !.h = @ \cup {<<x, w, m>>}] IN
    IF a.rc = 0 /\ Cardinality(a.h) < a.k THEN b ELSE Drop(b)
RECURSIVE Offers(_, _)
Offers(a, xs) == IF xs = <<>> THEN a ELSE Offers(Offer(a, Head(xs)[1], Head(xs)[2], Head(xs)[3]), Tail(xs))

(* Threshold: light below, heavy above; w[x] is the weight item x was      *)
(* offered with.                                                           *)
SizeOk(b) == Cardinality(b.h) + Cardinality(b.r) = MinOf(b.n, b.k) /\ (b.r = {} <=> b.n <= b.k)
ThresholdOk(b, w) ==
    /\ \A e \in b.h : e[2] * Cardinality(b.r) >= b.wr
    /\ \A x \in b.r : w[x] * Cardinality(b.r) <= b.wr
HeavyExact(b, w) == \A e \in b.h : e[2] = w[e[1]]

----------------------------------------------------------------------------
(* Union: [mk, n, tn, td, g]; tn/td is the largest threshold among the     *)
(* inputs, td counts the items that stood at it.                           *)
NewUnion(mk) == [mk |-> mk, n |-> 0, tn |-> 0, td |-> 0, g |-> Fresh(mk)]
AbsU(u) == [u EXCEPT !.g = Abs(@)]
MatchU(u, v) == v.mk = u.mk /\ v.n = u.n /\ v.tn = u.tn /\ v.td = u.td /\ Match(u.g, v.g)
Tau(u, n, d) ==
    IF u.td = 0 \/ n * u.td > u.tn * d THEN [u EXCEPT !.tn = n, !.td = d]
    ELSE IF n * u.td = u.tn * d THEN [u EXCEPT !.tn = @ + n, !.td = @ + d]
    ELSE u
(* what a source brings: its heavy items as they are, its light ones marked *)
Divisible(src) == src.r = {} \/ src.wr % Cardinality(src.r) = 0
Brings(src) ==
    LET t == src.wr \div Cardinality(src.r) IN
    SetToSeq({<<e[1], e[2], FALSE>> : e \in src.h}) \o SetToSeq({<<x, t, TRUE>> : x \in src.r})
Merge(u, src) ==
    IF src.n = 0 THEN u
    ELSE LET v == [u EXCEPT !.n = @ + src.n, !.g = Offers(@, Brings(src))] IN
         IF src.r = {} THEN v ELSE Tau(v, src.wr, Cardinality(src.r))
(* a reservoir: n items seen, the set s held, at most k                    *)
MergeRes(u, n, k, s) ==
    IF n = 0 THEN u
    ELSE LET w == IF n <= k THEN 1 ELSE n \div k
             v == [u EXCEPT !.n = @ + n, !.g = Offers(@, SetToSeq({<<x, w, n > k>> : x \in s}))]
         IN IF n <= k THEN v ELSE Tau(v, n, k)

Marked(a) == {e \in a.h : e[3]}
Plain(h) == {<<e[1], e[2], FALSE>> : e \in h}
RECURSIVE Migrate(_)
Migrate(a) == IF Marked(a) = {} THEN a ELSE Migrate(Drop([a EXCEPT !.k = @ - 1]))
Result(u) ==
    LET g == [u.g EXCEPT !.n = u.n] M == Marked(g) IN
    IF M = {} THEN g
    ELSE IF g.rc = 0 /\ Cardinality(M) = u.td /\ (\A e \in g.h \ M : e[2] * u.td >= u.tn)
         THEN [g EXCEPT !.k = Cardinality(g.h), !.h = @ \ M, !.cs = {e[1] : e \in M}, !.rc = Cardinality(M), !.wr = Wts(M)]
    ELSE LET c == IF g.rc = 0 /\ Cardinality(g.h) < g.k THEN [g EXCEPT !.k = Cardinality(g.h)] ELSE g IN
         LET d == Migrate(Drop([c EXCEPT !.k = @ - 1])) IN [d EXCEPT !.h = Plain(@)]
ResetUnion(u) == NewUnion(u.mk)
=============================================================================
