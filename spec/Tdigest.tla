------------------------------ MODULE Tdigest ------------------------------
(***************************************************************************)
(* t-digest.  A digest is                                                  *)
(*   [k, n, mn, mx, rev, cs, buf, nat]                                     *)
(* cs is the sequence of its centroids and buf the values it has not       *)
(* absorbed yet.  A centroid is <<x, w, f>>: x orders the means exactly, w *)
(* is its weight and f its mean in fixed point (for digests of grid        *)
(* values, otherwise 0).  A value is a centroid of weight one.  nat says   *)
(* that every centroid goes back to values this library absorbed (it may   *)
(* not in a digest read from a foreign image).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
Abs1(x) == IF x < 0 THEN -x ELSE x
Wt(cs) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE cs[i][2] + f(i - 1) IN f(Len(cs))
ByMean(cs) == SortSeq(cs, LAMBDA a, b : a[1] < b[1])
MinX(cs) == LET RECURSIVE f(_) f(i) == IF i = Len(cs) THEN cs[i][1] ELSE MinOf(cs[i][1], f(i + 1)) IN f(1)
MaxX(cs) == LET RECURSIVE f(_) f(i) == IF i = Len(cs) THEN cs[i][1] ELSE MaxOf(cs[i][1], f(i + 1)) IN f(1)

(***************************************************************************)
(* The scale function: a centroid between the cumulative weights S and     *)
(* S + w of W may average different values only if                         *)
(*    w * 2k <= q(1-q)W * (4 ln(W/2k) + 24)   at both of its ends q.       *)
(* Z10 is ten times the last factor, rounded up to a power of two in the   *)
(* logarithm.                                                              *)
(***************************************************************************)
Z10(W, k) ==
    LET RECURSIVE up(_, _)
        up(c, e) == IF c >= W THEN e ELSE up(2 * c, e + 1)
        RECURSIVE down(_, _)
        down(c, e) == IF c * 2 > 2 * k THEN e ELSE down(2 * c, e + 1)
    IN IF W > 2 * k THEN 240 + 28 * up(2 * k, 0) ELSE 240 - 27 * down(W, 0)
LimitOk(S, w, W, k) ==
    LET at(q) == ((q * (W - q)) \div W + 1) * Z10(W, k)
    IN w * 2 * k * 10 <= MinOf(at(S), at(S + w))

(***************************************************************************)
(* out groups inp (sorted by mean): every centroid of out is the average   *)
(* of neighbours of inp, the ends stay alone, and nothing else happens.    *)
(* Neighbours of equal mean have no order.                                 *)
(***************************************************************************)
MeanOk(grid, s, c) == grid => Abs1(s - c[2] * c[3]) <= c[2] + 2
RECURSIVE Groups(_, _, _, _, _, _, _, _, _, _, _)
(* i, rem: next input and what is left of its weight; j, left: group being *)
(* filled and what it still lacks; lo: its least mean; s: its sum; S: the  *)
(* weight before it                                                        *)
Groups(inp, out, k, W, grid, i, rem, j, left, ls, S) ==
    IF i > Len(inp) THEN FALSE
    ELSE LET take == MinOf(rem, left)
             s2 == ls[2] + (IF grid THEN take * inp[i][3] ELSE 0)
             lo == IF left = out[j][2] THEN inp[i][1] ELSE ls[1]
             x == inp[i][1]
             tie == (i > 1 /\ inp[i - 1][1] = x) \/ (i < Len(inp) /\ inp[i + 1][1] = x)
             ni == IF take = rem THEN i + 1 ELSE i
             nrem == IF take = rem THEN (IF i < Len(inp) THEN inp[i + 1][2] ELSE 0) ELSE rem - take
         IN IF take < left
            THEN Groups(inp, out, k, W, grid, ni, nrem, j, left - take, <<lo, s2>>, S)
            ELSE /\ (take < rem => tie)
                 /\ lo <= out[j][1] /\ out[j][1] <= x
                 /\ MeanOk(grid, s2, out[j])
                 /\ (lo < x => LimitOk(S, out[j][2], W, k))
                 /\ IF j = Len(out) THEN ni > Len(inp)
                    ELSE Groups(inp, out, k, W, grid, ni, nrem, j + 1, out[j + 1][2], <<0, 0>>, S + out[j][2])
Grouped(inp, out, k, grid) ==
    /\ out # <<>> /\ \A j \in DOMAIN out : out[j][2] > 0
    /\ LET W == Wt(inp) L == Len(inp) IN
       /\ Groups(inp, out, k, W, grid, 1, inp[1][2], 1, out[1][2], <<0, 0>>, 0)
       /\ out[1][1] = inp[1][1] /\ out[Len(out)][1] = inp[L][1]

(* absorb the values and centroids of `more` (in any order)                *)
Regroup(cs, more, out, k, grid) == IF more = <<>> THEN out = cs ELSE Grouped(ByMean(more \o cs), out, k, grid)

Room(k) == 3 * k + 30
BufRoom(k) == 4 * (2 * k + (IF k < 30 THEN 30 ELSE 10))

----------------------------------------------------------------------------
Fresh(k) == [k |-> k, n |-> 0, mn |-> 0, mx |-> 0, rev |-> FALSE, cs |-> <<>>, buf |-> <<>>, nat |-> TRUE]

(* the part of the state that does not depend on when values are absorbed  *)
Offer(d, xs) ==
    IF xs = <<>> THEN d
    ELSE [d EXCEPT !.n = @ + Len(xs),
                   !.mn = IF d.n = 0 THEN MinX(xs) ELSE MinOf(@, MinX(xs)),
                   !.mx = IF d.n = 0 THEN MaxX(xs) ELSE MaxOf(@, MaxX(xs))]
Refused(a, b) == b.n = 0
Absorb(a, b) ==
    [a EXCEPT !.n = @ + b.n, !.mn = IF a.n = 0 THEN b.mn ELSE MinOf(@, b.mn),
              !.mx = IF a.n = 0 THEN b.mx ELSE MaxOf(@, b.mx), !.nat = @ /\ b.nat]

(* What every digest satisfies.                                            *)
WeightOk(d) == Wt(d.cs) + Len(d.buf) = d.n
OrderOk(d) ==
    /\ \A i \in 1 .. Len(d.cs) - 1 : d.cs[i][1] <= d.cs[i + 1][1]
    /\ \A i \in DOMAIN d.cs : d.cs[i][2] > 0 /\ d.mn <= d.cs[i][1] /\ d.cs[i][1] <= d.mx
    /\ \A i \in DOMAIN d.buf : d.mn <= d.buf[i][1] /\ d.buf[i][1] <= d.mx
SpaceOk(d) == Len(d.cs) <= Room(d.k) /\ Len(d.buf) <= BufRoom(d.k)
EndsOk(d) == (d.nat /\ d.cs # <<>> /\ d.buf = <<>>) =>
    (d.cs[1][1] = d.mn /\ d.cs[1][2] = 1 /\ d.cs[Len(d.cs)][1] = d.mx /\ d.cs[Len(d.cs)][2] = 1)

(* a single value is shown as buffered                                     *)
Settled(d) == IF d.cs = <<>> /\ Len(d.buf) = 1 THEN d.buf ELSE d.cs

(* values arrive: some prefix of what is buffered is absorbed              *)
UpdateOk(d, xs, cs, buf, grid) ==
    LET all == d.buf \o xs a == Len(all) - Len(buf) IN
    /\ a >= 0 /\ buf = SubSeq(all, a + 1, Len(all))
    /\ Regroup(d.cs, SubSeq(all, 1, a), cs, d.k, grid)
MergeOk(a, b, cs, buf, grid) ==
    \/ b.n = 1 /\ a.n = 0 /\ cs = <<>> /\ buf = Settled(b)
    \/ buf = <<>> /\ Regroup(a.cs, a.buf \o b.buf \o b.cs, cs, a.k, grid)
(* a query or a compact image may absorb the buffer                        *)
SettleOk(d, cs, buf, grid) == UpdateOk(d, <<>>, cs, buf, grid)

----------------------------------------------------------------------------
(* Queries of a digest without buffer.                                     *)
Before(cs, i) == LET RECURSIVE f(_) f(q) == IF q = 0 THEN 0 ELSE cs[q][2] + f(q - 1) IN f(i - 1)
Mid2(cs, i) == 2 * Before(cs, i) + cs[i][2]   \* twice the rank of the centre of centroid i

(* twice the natural rank of x lies between these                          *)
RankRange(d, x) ==
    LET cs == Settled(d) L == Len(cs)
        a == Cardinality({i \in DOMAIN cs : cs[i][1] < x})
        b == L + 1 - Cardinality({i \in DOMAIN cs : cs[i][1] > x})
    IN IF x < d.mn THEN <<0, 0>>
       ELSE IF x > d.mx THEN <<2 * d.n, 2 * d.n>>
       ELSE IF a + 1 <= b - 1 THEN <<Mid2(cs, a + 1), Mid2(cs, b - 1)>>
       ELSE <<IF a = 0 THEN 0 ELSE Mid2(cs, a), IF b = L + 1 THEN 2 * d.n ELSE Mid2(cs, b)>>

(* the quantile of natural rank j/2 lies between the means of these        *)
(* centroids (0: the minimum, L+1: the maximum)                            *)
QuantileRange(d, j) ==
    LET cs == Settled(d) L == Len(cs)
        a == {i \in DOMAIN cs : Mid2(cs, i) < j}
        b == {i \in DOMAIN cs : Mid2(cs, i) > j}
    IN <<IF a = {} THEN 0 ELSE CHOOSE i \in a : \A q \in a : q <= i,
         IF b = {} THEN L + 1 ELSE CHOOSE i \in b : \A q \in b : i <= q>>
=============================================================================
