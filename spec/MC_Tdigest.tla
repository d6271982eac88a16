---------------------------- MODULE MC_Tdigest ----------------------------
(***************************************************************************)
(* Implementation-shaped t-digest: values go to a buffer of size B; a full *)
(* buffer, a merge and a query sort everything and merge neighbours        *)
(* greedily, alternately from below and from above, as long as the scale   *)
(* function admits it.  Centroids here are <<f, w, f, s>> with s the exact *)
(* sum of the values and f = round(1000 s / w).                            *)
(***************************************************************************)
EXTENDS Tdigest, Json

CONSTANTS K, B, V, D, EMIT
VARIABLES dg, sum, hist
vars == <<dg, sum, hist>>
view == <<dg, sum, Len(hist)>>

Cent(s, w) == LET f == (2000 * s + w) \div (2 * w) IN <<f, w, f, s>>
Val(x) == Cent(x, 1)
Admits(S, w, W) == w * 2 * K * 10 * W <= MinOf(S * (W - S), (S + w) * (W - S - w)) * Z10(W, K)

RECURSIVE Greedy(_, _, _, _, _)
Greedy(inp, i, out, S, W) ==   \* S: weight before the last centroid of out
    IF i > Len(inp) THEN out
    ELSE LET o == Len(out) p == out[o][2] + inp[i][2] IN
         IF i # 2 /\ i # Len(inp) /\ Admits(S, p, W)
         THEN Greedy(inp, i + 1, [out EXCEPT ![o] = Cent(@[4] + inp[i][4], p)], S, W)
         ELSE Greedy(inp, i + 1, Append(out, inp[i]), S + out[o][2], W)
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Merged(inp0, rev) ==
    LET inp == IF rev THEN Rev(ByMean(inp0)) ELSE ByMean(inp0)
        out == Greedy(inp, 2, <<inp[1]>>, 0, Wt(inp))
    IN IF rev THEN Rev(out) ELSE out
Settle(d) == IF d.buf = <<>> THEN d ELSE [d EXCEPT !.cs = Merged(d.buf \o d.cs, d.rev), !.buf = <<>>, !.rev = ~d.rev]
Take(d, x) == LET e == IF Len(d.buf) = B THEN Settle(d) ELSE d IN [Offer(e, <<Val(x)>>) EXCEPT !.buf = Append(@, Val(x))]
Join(a, b) == [Absorb(a, b) EXCEPT !.cs = Merged(a.buf \o b.buf \o b.cs \o a.cs, a.rev), !.buf = <<>>, !.rev = ~a.rev]

Init == dg = [i \in {1, 2} |-> Fresh(K)] /\ sum = [i \in {1, 2} |-> 0] /\ hist = << <<"newd", 1>>, <<"newd", 2>> >>
Log(c) == hist' = Append(hist, c)
Upd(i, x) == dg' = [dg EXCEPT ![i] = Take(@, x)] /\ sum' = [sum EXCEPT ![i] = @ + x] /\ Log(<<"upd", i, x>>)
Merge(i, j) == dg[j].n > 0 /\ dg' = [dg EXCEPT ![i] = Join(dg[i], dg[j])] /\ sum' = [sum EXCEPT ![i] = @ + sum[j]] /\ Log(<<"merge", i, j>>)
Query(i) == dg' = [dg EXCEPT ![i] = Settle(@)] /\ UNCHANGED sum /\ Log(<<"query", i>>)
Ser(i) == UNCHANGED <<dg, sum>> /\ Log(<<"ser", 4 + i, i>>)
Next ==
    /\ Len(hist) < D + 2
    /\ \/ \E x \in 1 .. V : Upd(1, x)
       \/ \E x \in {1, V} : Upd(2, x)
       \/ Merge(1, 2) \/ Merge(2, 1) \/ (EMIT /\ Merge(1, 1))
       \/ Query(1) \/ (EMIT /\ (Query(2) \/ Ser(1) \/ Ser(2)))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Total(s) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE s[i][4] + f(i - 1) IN f(Len(s))
Good == \A i \in {1, 2} : LET d == dg[i] IN
    /\ WeightOk(d) /\ OrderOk(d) /\ EndsOk(d) /\ Len(d.cs) <= Room(K) /\ Len(d.buf) <= B
    /\ Total(d.cs) + Total(d.buf) = sum[i]
Steps == \A i \in {1, 2} : LET d == dg[i] e == Settle(d) IN
    /\ \A x \in 1 .. V : LET t == Take(d, x) IN UpdateOk(d, <<Val(x)>>, t.cs, t.buf, TRUE)
    /\ SettleOk(d, e.cs, e.buf, TRUE)
    /\ (dg[3 - i].n > 0 => LET t == Join(d, dg[3 - i]) IN MergeOk(d, dg[3 - i], t.cs, t.buf, TRUE))

(* the library's interpolation, in sixtieths                               *)
RankImpl(d, v) ==
    LET cs == d.cs L == Len(cs)
        lo0 == 1 + Cardinality({i \in DOMAIN cs : cs[i][1] < v})
        up0 == 1 + Cardinality({i \in DOMAIN cs : cs[i][1] <= v})
        lo == IF cs[lo0][1] > v /\ lo0 > 1 THEN lo0 - 1 ELSE lo0
        up == IF up0 = L + 1 \/ ~(cs[up0 - 1][1] < v) THEN up0 - 1 ELSE up0
        dw == 2 * Before(cs, up) + cs[up][2] - Mid2(cs, lo)
    IN IF v < d.mn THEN 0 ELSE IF v > d.mx THEN 120 * d.n
       ELSE IF L = 1 THEN 60
       ELSE 60 * Mid2(cs, lo) + (IF cs[up][1] > cs[lo][1] THEN (60 * dw * (v - cs[lo][1])) \div (cs[up][1] - cs[lo][1]) ELSE 30 * dw)
QuantImpl(d, j) ==
    LET cs == d.cs L == Len(cs)
        RECURSIVE f(_, _)
        f(i, so) ==   \* so: twice the weight so far
            IF i = L THEN 60 * d.mx
            ELSE LET dw == cs[i][2] + cs[i + 1][2]
                     l1 == IF cs[i][2] = 1 THEN 1 ELSE 0
                     r1 == IF cs[i + 1][2] = 1 THEN 1 ELSE 0
                     w1 == j - so - l1
                     w2 == so + dw - j - r1
                 IN IF so + dw > j
                    THEN IF l1 = 1 /\ w1 < 0 THEN 60 * cs[i][1]
                         ELSE IF r1 = 1 /\ w2 <= 0 THEN 60 * cs[i + 1][1]
                         ELSE (60 * (cs[i][1] * w2 + cs[i + 1][1] * w1)) \div (w1 + w2)
                    ELSE f(i + 1, so + dw)
    IN IF L = 1 THEN 60 * cs[1][1]
       ELSE IF j < 2 THEN 60 * d.mn ELSE IF j > 2 * d.n - 2 THEN 60 * d.mx
       ELSE f(1, cs[1][2])
Queries == LET d == Settle(dg[1]) IN d.n > 0 =>
    /\ \A h \in 0 .. 4 * V + 4 : LET v == 250 * h r == RankRange(d, v) a == RankImpl(d, v) IN
        /\ 60 * r[1] <= a /\ a <= 60 * r[2]
        /\ a <= RankImpl(d, v + 250)
    /\ \A j \in 0 .. 2 * d.n : LET r == QuantileRange(d, j) q == QuantImpl(d, j) L == Len(d.cs) IN
        /\ 60 * (IF r[1] = 0 THEN d.mn ELSE d.cs[r[1]][1]) <= q /\ q <= 60 * (IF r[2] = L + 1 THEN d.mx ELSE d.cs[r[2]][1])
        /\ j < 2 * d.n => q <= QuantImpl(d, j + 1)
Emit == (EMIT /\ Len(hist) = D + 2) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
