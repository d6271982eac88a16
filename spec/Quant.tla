------------------------------- MODULE Quant -------------------------------
(***************************************************************************)
(* Quantile sketches (KLL and REQ).  A sketch is                           *)
(*   [t, k, m, pk, n, lv, mn, mx, prot]                                    *)
(* lv[h] is the sorted sequence of the items of weight 2^(h-1); pk is the  *)
(* smallest k that took part; mn, mx are the extremes of everything        *)
(* offered (0 when nothing was); prot is, for REQ, the sorted sequence of  *)
(* the 3 * pk most accurate items ever offered: the greatest ones (t =     *)
(* "hra") or the smallest ones (t = "lra").  Items are positive integers.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
IsSortedSeq(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
Lv(lv, h) == IF h <= Len(lv) THEN lv[h] ELSE <<>>
Weight(lv) == LET RECURSIVE f(_) f(h) == IF h > Len(lv) THEN 0 ELSE Len(lv[h]) * (2 ^ (h - 1)) + f(h + 1) IN f(1)
Retained(lv) == LET RECURSIVE f(_) f(h) == IF h > Len(lv) THEN 0 ELSE Len(lv[h]) + f(h + 1) IN f(1)
Items(lv) == UNION {{lv[h][i] : i \in DOMAIN lv[h]} : h \in DOMAIN lv}

(* bag difference of sorted sequences; the second must be contained in the *)
(* first for FitsIn to hold                                                *)
RECURSIVE Minus(_, _, _, _)
Minus(a, b, i, j) ==
    IF i > Len(a) THEN <<>>
    ELSE IF j <= Len(b) /\ a[i] = b[j] THEN Minus(a, b, i + 1, j + 1)
    ELSE <<a[i]>> \o Minus(a, b, i + 1, j)
RECURSIVE FitsIn(_, _, _, _)
FitsIn(b, a, j, i) ==
    IF j > Len(b) THEN TRUE
    ELSE IF i > Len(a) THEN FALSE
    ELSE IF a[i] = b[j] THEN FitsIn(b, a, j + 1, i + 1)
    ELSE IF a[i] < b[j] THEN FitsIn(b, a, j, i + 1)
    ELSE FALSE

Halve(s, odd) == [i \in 1 .. Len(s) \div 2 |-> s[2 * i - (IF odd THEN 1 ELSE 0)]]

(***************************************************************************)
(* post comes from pre by adding, at every level, the items of add, and by *)
(* fair halvings: at every level an even number of items may leave, and    *)
(* every other one of them in sorted order enters the level above.         *)
(***************************************************************************)
RECURSIVE Compacted(_, _, _, _, _)
Compacted(pre, add, post, h, up) ==
    IF h > MaxOf(Len(post), MaxOf(Len(pre), Len(add))) THEN up = <<>>
    ELSE IF up = <<>> /\ Lv(add, h) = <<>> /\ Lv(pre, h) = Lv(post, h) THEN Compacted(pre, add, post, h + 1, <<>>)
    ELSE LET all == Sorted(Lv(pre, h) \o Lv(add, h) \o up) IN
         /\ FitsIn(Lv(post, h), all, 1, 1)
         /\ LET out == Minus(all, Lv(post, h), 1, 1) IN
            /\ Len(out) % 2 = 0
            /\ IF out = <<>> THEN Compacted(pre, add, post, h + 1, <<>>)
               ELSE \/ Compacted(pre, add, post, h + 1, Halve(out, TRUE))
                    \/ Compacted(pre, add, post, h + 1, Halve(out, FALSE))

(* the number of levels that lost items                                    *)
RECURSIVE LostAt(_, _, _, _)
LostAt(pre, add, post, h) ==   \* only meaningful when Compacted holds
    IF h > Len(post) THEN 0
    ELSE (IF Len(Lv(post, h + 1)) > Len(Lv(pre, h + 1)) + Len(Lv(add, h + 1)) THEN 1 ELSE 0) + LostAt(pre, add, post, h + 1)

(***************************************************************************)
(* Largest change of a rank: the maximum over y of |W_post(<= y) -         *)
(* W_pre(<= y) - W_add(<= y)|.                                             *)
(***************************************************************************)
Points(lv, sg) ==
    LET RECURSIVE f(_)
        f(h) == IF h > Len(lv) THEN <<>>
                ELSE [i \in DOMAIN lv[h] |-> <<lv[h][i], sg * (2 ^ (h - 1))>>] \o f(h + 1)
    IN f(1)
Abs1(x) == IF x < 0 THEN -x ELSE x
MaxShift(pre, add, post) ==
    LET ps == SortSeq(Points(pre, -1) \o Points(add, -1) \o Points(post, 1), LAMBDA a, b : a[1] < b[1])
        RECURSIVE run(_, _, _)
        run(i, s, mx) == IF i > Len(ps) THEN mx
                         ELSE LET t == s + ps[i][2]
                              IN run(i + 1, t, IF i = Len(ps) \/ ps[i + 1][1] # ps[i][1] THEN MaxOf(mx, Abs1(t)) ELSE mx)
    IN run(1, 0, 0)

(***************************************************************************)
(* Capacities of KLL levels: max(m, round(k * (2/3)^depth)).               *)
(***************************************************************************)
LevelCap(k, m, depth) ==
    IF depth > 18 THEN m
    ELSE MaxOf(m, (((2 * k * (2 ^ depth)) \div (3 ^ depth)) + 1) \div 2)
KllCap(k, m, L) == LET RECURSIVE f(_) f(d) == IF d = L THEN 0 ELSE LevelCap(k, m, d) + f(d + 1) IN f(0)

(* room of a REQ level that saw n items: it holds fewer than 6k items, and *)
(* more only after many compactions                                        *)
ReqLevelCap(k, n) ==
    LET g == IF n < 4 THEN 0 ELSE IF n < 32 THEN 1 ELSE IF n < 2048 THEN 2 ELSE IF n < 8388608 THEN 3 ELSE 4
    IN (6 * k * (3 ^ g)) \div (2 ^ g)
ReqCap(k, n, L) == LET RECURSIVE f(_) f(h) == IF h > L THEN 0 ELSE ReqLevelCap(k, n \div (2 ^ (h - 1))) + f(h + 1) IN f(1)

----------------------------------------------------------------------------
Fresh(t, k, m) == [t |-> t, k |-> k, m |-> m, pk |-> k, n |-> 0, lv |-> <<>>, mn |-> 0, mx |-> 0, prot |-> <<>>]
Kind(s) == IF s.t = "kll" THEN "kll" ELSE "req"

Trim(t, p, c) == IF Len(p) <= c THEN p ELSE IF t = "hra" THEN SubSeq(p, Len(p) - c + 1, Len(p)) ELSE SubSeq(p, 1, c)
ProtOf(s, t2, xs, pk) == IF s.t = "kll" THEN <<>> ELSE Trim(s.t, Sorted(s.prot \o xs), 3 * pk)

MinSeq(s) == LET RECURSIVE f(_) f(i) == IF i = Len(s) THEN s[i] ELSE MinOf(s[i], f(i + 1)) IN f(1)
MaxSeq(s) == LET RECURSIVE f(_) f(i) == IF i = Len(s) THEN s[i] ELSE MaxOf(s[i], f(i + 1)) IN f(1)
Low(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE MinOf(a, b)

(* the part of the state that does not depend on coins                     *)
Offer(s, xs) ==
    IF xs = <<>> THEN s
    ELSE [s EXCEPT !.n = @ + Len(xs), !.mn = Low(@, MinSeq(xs)), !.mx = MaxOf(@, MaxSeq(xs)), !.prot = ProtOf(s, s.t, xs, s.pk)]
Refused(a, b) == b.n # 0 /\ a.t # b.t
(* a KLL source that holds every item exactly does not weaken the target   *)
Absorb(a, b) ==
    IF b.n = 0 THEN a
    ELSE LET pk == IF a.t = "kll" /\ Len(b.lv) <= 1 THEN a.pk ELSE MinOf(a.pk, b.pk)
         IN [a EXCEPT !.n = @ + b.n, !.mn = Low(@, b.mn), !.mx = MaxOf(@, b.mx), !.pk = pk,
                      !.prot = IF a.t = "kll" THEN <<>> ELSE Trim(a.t, Sorted(a.prot \o b.prot), 3 * pk)]

----------------------------------------------------------------------------
(* What every sketch satisfies, given its coin-independent part s.         *)
WeightOk(s, lv) == Weight(lv) = s.n
Shaped(lv) == \A h \in DOMAIN lv : IsSortedSeq(lv[h])
InRange(s, lv) == \A x \in Items(lv) : s.mn <= x /\ x <= s.mx
(* everything is held exactly at first                                     *)
ExactOk(s, lv) == (s.n <= (IF s.t = "kll" THEN s.pk ELSE 6 * s.pk - 1)) => Len(lv) <= 1
SpaceOk(s, lv) == Retained(lv) <= (IF s.t = "kll" THEN KllCap(s.k, s.m, MaxOf(1, Len(lv))) ELSE ReqCap(s.k, s.n, MaxOf(1, Len(lv))))

(* the accurate end of a REQ sketch is held exactly                        *)
Beyond(s, x) == IF s.t = "hra" THEN x > s.prot[1] ELSE x < s.prot[Len(s.prot)]
AccurateEndOk(s, lv) ==
    (s.t # "kll" /\ s.prot # <<>>) =>
      IF s.n < 3 * s.pk THEN Lv(lv, 1) = s.prot /\ Len(lv) = 1
      ELSE /\ SelectSeq(lv[1], LAMBDA x : Beyond(s, x)) = SelectSeq(s.prot, LAMBDA x : Beyond(s, x))
           /\ \A h \in 2 .. Len(lv) : \A i \in DOMAIN lv[h] : ~Beyond(s, lv[h][i])

(* one update: fair halvings; KLL compacts at most one level               *)
UpdateOk(s, x, lv) ==
    /\ Compacted(s.lv, << <<x>> >>, lv, 1, <<>>)
    /\ s.t = "kll" => LostAt(s.lv, << <<x>> >>, lv, 1) <= 1

(* merging                                                                 *)
RECURSIVE Below(_)
Below(L) == IF L <= 1 THEN 0 ELSE 2 ^ (L - 2) + Below(L - 1)
KllMergeBound(b, m, L) == IF L <= 1 THEN 0 ELSE Below(L) + ((2 * Len(Lv(b.lv, 1))) \div m + 1) * (2 ^ (L - 2))
MergeOk(a, b, lv) ==
    IF b.n = 0 THEN lv = a.lv
    ELSE IF a.t = "kll"
    THEN /\ Items(lv) \subseteq Items(a.lv) \cup Items(b.lv)
         /\ MaxShift(a.lv, b.lv, lv) <= KllMergeBound(b, a.m, Len(lv))
         /\ (b.n + a.n <= MinOf(a.pk, b.pk)) => lv = <<Sorted(Lv(a.lv, 1) \o Lv(b.lv, 1))>>
    ELSE Compacted(a.lv, b.lv, lv, 1, <<>>)

----------------------------------------------------------------------------
(* Queries.  A view is [xs, cw]: items in order and cumulative weights.    *)
View0(s) ==
    LET ps == SortSeq(Points(s.lv, 1), LAMBDA a, b : a[1] < b[1])
        RECURSIVE cum(_, _)
        cum(i, c) == IF i > Len(ps) THEN <<>> ELSE <<c + ps[i][2]>> \o cum(i + 1, c + ps[i][2])
    IN [xs |-> [i \in DOMAIN ps |-> ps[i][1]], cw |-> cum(1, 0)]
(* REQ puts the extremes, with weight one, into its view                   *)
View(s) ==
    LET v == View0(s) L == Len(v.xs)
        lo == v.xs[1] # s.mn
        hi == v.xs[L] # s.mx
        cw1 == IF hi THEN [v.cw EXCEPT ![L] = @ - 1] ELSE v.cw
    IN IF s.t = "kll" THEN v
       ELSE [xs |-> (IF lo THEN <<s.mn>> ELSE <<>>) \o v.xs \o (IF hi THEN <<s.mx>> ELSE <<>>),
             cw |-> (IF lo THEN <<1>> ELSE <<>>) \o cw1 \o (IF hi THEN <<v.cw[L]>> ELSE <<>>)]

(* last index with item < y (<= y), 0 if none: the items are in order      *)
IndexBelow(v, y, incl) == Cardinality({i \in DOMAIN v.xs : IF incl THEN v.xs[i] <= y ELSE v.xs[i] < y})
RankIn(v, y, incl) == LET i == IndexBelow(v, y, incl) IN IF i = 0 THEN 0 ELSE v.cw[i]
(* the item of rank j / (2n)                                               *)
IndexAt(v, t, incl) ==   \* t: natural rank
    LET ok == {i \in DOMAIN v.cw : IF incl THEN v.cw[i] >= t ELSE v.cw[i] > t}
    IN IF ok = {} THEN Len(v.cw) ELSE CHOOSE i \in ok : \A q \in ok : i <= q
NatRank(j2, incl) == IF incl THEN (j2 + 1) \div 2 ELSE j2 \div 2
QuantileIn(v, j2, incl) == v.xs[IndexAt(v, NatRank(j2, incl), incl)]

(* a listing of the view: only the order of equal items is free            *)
ListingOk(v, xs, cw) ==
    /\ xs = v.xs /\ Len(cw) = Len(v.cw)
    /\ \A i \in 1 .. Len(cw) - 1 : cw[i] <= cw[i + 1]
    /\ \A i \in DOMAIN xs : (i = Len(xs) \/ xs[i + 1] # xs[i]) => cw[i] = v.cw[i]

(* boundaries of np parts of equal size                                    *)
BoundariesOk(s, np, incl, bs) ==
    LET v == View(s)
        L == Len(v.xs)
        w == [v EXCEPT !.cw[1] = 1]
        item(u, i) == LET t == IF incl THEN (i * s.n + np - 1) \div np ELSE (i * s.n) \div np
                          ix == IndexAt(u, t, incl)
                      IN {u.xs[ix]} \cup (IF ix = 1 THEN {s.mn} ELSE {}) \cup (IF ix = L THEN {s.mx} ELSE {})
    IN /\ Len(bs) = np + 1 /\ IsSortedSeq(bs)
       /\ bs[1] = s.mn /\ bs[np + 1] = s.mx
       /\ \A i \in 1 .. np - 1 : bs[i + 1] \in item(v, i) \cup item(w, i)
=============================================================================
