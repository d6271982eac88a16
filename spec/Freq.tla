------------------------------- MODULE Freq -------------------------------
(***************************************************************************)
(* Frequent-items sketches.  A sketch is                                   *)
(*   [lg, w, off, cs, tr, ms]                                              *)
(* lg is the logarithm of its largest map, w the stream weight, off the    *)
(* error offset, cs the tracked count of every item of the universe        *)
(* 1..P (0: not tracked), tr its true weight, ms the smallest map among    *)
(* the sketches merged into it (as a size).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
CapOf(lg) == 3 * 2 ^ (lg - 2)
Zero(P) == [i \in 1 .. P |-> 0]
Fresh(lg, P) == [lg |-> lg, w |-> 0, off |-> 0, cs |-> Zero(P), tr |-> Zero(P), ms |-> 2 ^ lg]
Act(cs) == Cardinality({i \in DOMAIN cs : cs[i] > 0})
Sum(xs) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE xs[i][2] + f(i - 1) IN f(Len(xs))
RECURSIVE Plus(_, _)
Plus(cs, xs) == IF xs = <<>> THEN cs ELSE Plus([cs EXCEPT ![Head(xs)[1]] = @ + Head(xs)[2]], Tail(xs))
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]

(***************************************************************************)
(* One more item, and then, only if there are more than the map may hold,  *)
(* one purge: everything loses D, the median of a sample of the counts (all*)
(* but one, if the map is not large),                                      *)
(* and what is left without a count is forgotten.                          *)
(***************************************************************************)
Less(v, D) == [i \in DOMAIN v |-> MaxOf(0, v[i] - D)]
PurgeOk(lg, v, D) ==
    /\ Act(v) > CapOf(lg) /\ D > 0
    /\ (CapOf(lg) <= 1024 => 2 * Cardinality({i \in DOMAIN v : v[i] >= D}) >= CapOf(lg))
UpdateOk(s, x, c, cs, off) ==
    LET v == Plus(s.cs, << <<x, c>> >>) D == off - s.off IN
    \/ D = 0 /\ cs = v
    \/ D > 0 /\ PurgeOk(s.lg, v, D) /\ cs = Less(v, D)

(* Several at once: the purges in between may take at most the offset's    *)
(* growth from every count, and there are none while everything fits.      *)
SeveralOk(s, d, off0, cs, off) ==
    LET D == off - off0 IN
    /\ D >= 0
    /\ (Act(Add(s.cs, d)) <= CapOf(s.lg) => D = 0)
    /\ \A i \in DOMAIN cs : LET t == s.cs[i] + d[i] IN MaxOf(0, t - D) <= cs[i] /\ cs[i] <= t

(* The part of the state that does not depend on which items are tracked.  *)
Offer(s, xs) == [s EXCEPT !.w = @ + Sum(xs), !.tr = Plus(@, xs)]
Absorb(a, b) == [a EXCEPT !.w = @ + b.w, !.tr = Add(@, b.tr), !.ms = MinOf(@, b.ms)]

(* What every sketch promises.                                             *)
BoundsOk(s) == \A i \in DOMAIN s.cs : s.cs[i] <= s.tr[i] /\ s.tr[i] <= s.cs[i] + s.off
SpaceOk(s) == Act(s.cs) <= CapOf(s.lg)
ErrorOk(s) == s.ms <= 1024 => s.off <= (7 * s.w) \div (2 * s.ms) + 1
ExactOk(s) == s.off = 0 => s.cs = s.tr

(* Frequent items over the threshold thr: which ones must, and which may,  *)
(* be listed.                                                              *)
Thr(s, t) == MaxOf(s.off, t)
MustList(s, t, nfn) ==
    LET T == Thr(s, t) IN
    {i \in DOMAIN s.cs : s.cs[i] > T \/ (nfn /\ s.cs[i] > 0 /\ s.cs[i] + s.off > T) \/ (nfn /\ s.tr[i] > T)}
MayList(s, t, nfn) ==
    LET T == Thr(s, t) IN
    {i \in DOMAIN s.cs : s.cs[i] > 0 /\ s.tr[i] > 0 /\ (IF nfn THEN s.cs[i] + s.off >= T ELSE s.tr[i] >= T)}
=============================================================================
