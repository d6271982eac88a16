-------------------------------- MODULE Cms --------------------------------
(***************************************************************************)
(* Count-min sketches.  A sketch is                                        *)
(*   [nb, nh, seed, cols, ctr, tot, tr, neg]                               *)
(* cols[r][x] is the bucket of item x in row r, ctr[r][b] the counter of   *)
(* bucket b, tot the total weight, tr[x] the true weight of item x, and    *)
(* neg says whether a negative weight was ever offered.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs1(x) == IF x < 0 THEN -x ELSE x
Fresh(nb, nh, seed, cols) ==
    [nb |-> nb, nh |-> nh, seed |-> seed, cols |-> cols,
     ctr |-> [r \in 1 .. nh |-> [b \in 1 .. nb |-> 0]], tot |-> 0,
     tr |-> [x \in 1 .. Len(cols[1]) |-> 0], neg |-> FALSE]
Upd(s, x, w) ==
    [s EXCEPT !.ctr = [r \in DOMAIN s.ctr |-> [s.ctr[r] EXCEPT ![s.cols[r][x]] = @ + w]],
              !.tot = @ + Abs1(w), !.tr[x] = @ + w, !.neg = @ \/ w < 0]
RECURSIVE Upds(_, _)
Upds(s, xs) == IF xs = <<>> THEN s ELSE Upds(Upd(s, Head(xs)[1], Head(xs)[2]), Tail(xs))
Compatible(a, b) == a.nb = b.nb /\ a.nh = b.nh /\ a.seed = b.seed
Merge(a, b) ==
    [a EXCEPT !.ctr = [r \in DOMAIN a.ctr |-> [i \in DOMAIN a.ctr[r] |-> a.ctr[r][i] + b.ctr[r][i]]],
              !.tot = @ + b.tot, !.tr = [x \in DOMAIN a.tr |-> a.tr[x] + b.tr[x]], !.neg = @ \/ b.neg]

Cell(s, r, x) == s.ctr[r][s.cols[r][x]]
Estimate(s, x) == LET S == {Cell(s, r, x) : r \in 1 .. s.nh} IN CHOOSE v \in S : \A u \in S : v <= u
Collide(s, r, x) ==
    LET RECURSIVE f(_)
        f(y) == IF y = 0 THEN 0 ELSE (IF y # x /\ s.cols[r][y] = s.cols[r][x] THEN s.tr[y] ELSE 0) + f(y - 1)
    IN f(Len(s.tr))
RowSum(q) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE q[i] + f(i - 1) IN f(Len(q))

(* What follows from it, and what users rely on.                           *)
NeverUnder(s) == ~s.neg => \A x \in DOMAIN s.tr : s.tr[x] <= Estimate(s, x)
OverByCollisions(s) == \A x \in DOMAIN s.tr :
    \E r \in 1 .. s.nh : Estimate(s, x) = s.tr[x] + Collide(s, r, x)
TotalOk(s) == ~s.neg => \A r \in 1 .. s.nh : RowSum(s.ctr[r]) = s.tot
=============================================================================
