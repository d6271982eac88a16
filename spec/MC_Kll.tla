------------------------------ MODULE MC_Kll ------------------------------
(***************************************************************************)
(* Implementation-shaped KLL: a full sketch compacts the lowest level that *)
(* reached its capacity (one item stays behind when their number is odd)   *)
(* before it takes the next item; a merge feeds the other sketch's first   *)
(* level and then compresses all levels bottom up.  Which half survives,   *)
(* and which item stays behind, is left open.                              *)
(***************************************************************************)
EXTENDS Quant, Json

CONSTANTS K, M, V, D, EMIT
VARIABLES sk, tr, er, hist
vars == <<sk, tr, er, hist>>
view == <<sk, tr, er, Len(hist)>>
(* tr: everything offered (sorted); er: the a priori bound of rank errors  *)

New == Fresh("kll", K, M)
L(s) == MaxOf(1, Len(s.lv))
CapAt(nl, h) == LevelCap(K, M, nl - h)
FullUp(lv) == Retained(lv) >= KllCap(K, M, MaxOf(1, Len(lv)))

(* all ways to compact level h of lv                                       *)
Ways(lv, h) ==
    LET a == lv[h] p == Len(a)
        rests == IF p % 2 = 0 THEN {<<a, <<>>>>}
                 ELSE {<<SubSeq(a, 1, i - 1) \o SubSeq(a, i + 1, p), <<a[i]>>>> : i \in (IF h = 1 THEN 1 .. p ELSE {1})}
        up(x) == IF h = Len(lv) THEN Append(lv, x) ELSE [lv EXCEPT ![h + 1] = Sorted(@ \o x)]
    IN {[up(Halve(r[1], o)) EXCEPT ![h] = r[2]] : r \in rests, o \in BOOLEAN}

Lowest(lv) == CHOOSE h \in DOMAIN lv : Len(lv[h]) >= CapAt(Len(lv), h) /\ \A g \in 1 .. h - 1 : Len(lv[g]) < CapAt(Len(lv), g)
Put1(lv, x) == IF lv = <<>> THEN <<<<x>>>> ELSE [lv EXCEPT ![1] = Sorted(Append(@, x))]
Added(lv, x) == IF lv # <<>> /\ FullUp(lv) THEN {<<Put1(w, x), 2 ^ (Lowest(lv) - 1)>> : w \in Ways(lv, Lowest(lv))}
                ELSE {<<Put1(lv, x), 0>>}

RECURSIVE FedAll(_, _, _)
FedAll(S, xs, i) == IF i > Len(xs) THEN S ELSE FedAll(UNION {{<<w[1], w[2] + p[2]>> : w \in Added(p[1], xs[i])} : p \in S}, xs, i + 1)

Joined(a, b) == [h \in 1 .. MaxOf(Len(a), Len(b)) |-> IF h = 1 THEN Lv(a, 1) ELSE Sorted(Lv(a, h) \o Lv(b, h))]
RECURSIVE Compress(_, _)
Compress(S, h) ==   \* S: set of <<levels, error>>
    IF \A p \in S : h > Len(p[1]) THEN S
    ELSE Compress(UNION {IF h > Len(p[1]) \/ Retained(p[1]) < KllCap(K, M, Len(p[1])) \/ Len(p[1][h]) < CapAt(Len(p[1]), h)
                         THEN {p}
                         ELSE {<<w, p[2] + 2 ^ (h - 1)>> : w \in Ways(p[1], h)} : p \in S}, h + 1)
Merges(a, b) ==
    LET fed == FedAll({<<a.lv, 0>>}, Lv(b.lv, 1), 1)
    IN IF Len(b.lv) <= 1 THEN fed ELSE Compress({<<Joined(p[1], b.lv), p[2]>> : p \in fed}, 1)

Init == sk = [i \in {1, 2} |-> New] /\ tr = [i \in {1, 2} |-> <<>>] /\ er = [i \in {1, 2} |-> 0]
        /\ hist = << <<"newq", 1>>, <<"newq", 2>> >>
Log(c) == hist' = Append(hist, c)
Upd(i, x) ==
    \E p \in Added(sk[i].lv, x) :
        /\ sk' = [sk EXCEPT ![i] = [Offer(sk[i], <<x>>) EXCEPT !.lv = p[1]]]
        /\ er' = [er EXCEPT ![i] = @ + p[2]]
        /\ tr' = [tr EXCEPT ![i] = Sorted(Append(@, x))]
        /\ Log(<<"upd", i, x>>)
Merge(i, j) ==
    /\ sk[j].n > 0
    /\ \E p \in Merges(sk[i], sk[j]) :
        /\ sk' = [sk EXCEPT ![i] = [Absorb(sk[i], sk[j]) EXCEPT !.lv = p[1]]]
        /\ er' = [er EXCEPT ![i] = @ + er[j] + p[2]]
        /\ tr' = [tr EXCEPT ![i] = Sorted(@ \o tr[j])]
        /\ Log(<<"merge", i, j>>)
Reset(i) == sk' = [sk EXCEPT ![i] = New] /\ tr' = [tr EXCEPT ![i] = <<>>] /\ er' = [er EXCEPT ![i] = 0] /\ Log(<<"reset", i>>)
Side(c) == Log(c) /\ UNCHANGED <<sk, tr, er>>
Next ==
    /\ Len(hist) < D + 2
    /\ \/ \E x \in 1 .. V : Upd(1, x)
       \/ \E x \in {1, V} : Upd(2, x)
       \/ Merge(1, 2) \/ Merge(2, 1)
       \/ EMIT /\ (Reset(2) \/ Side(<<"query", 1>>) \/ Side(<<"query", 2>>) \/ Side(<<"ser", 5, 1>>) \/ Side(<<"ser", 6, 2>>))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Good == \A i \in {1, 2} : LET s == sk[i] IN
    /\ WeightOk(s, s.lv) /\ Shaped(s.lv) /\ InRange(s, s.lv) /\ ExactOk(s, s.lv) /\ SpaceOk(s, s.lv)
    /\ s.n > 0 => s.mn = tr[i][1] /\ s.mx = tr[i][Len(tr[i])]
RankError == \A i \in {1, 2} : MaxShift(<<tr[i]>>, <<>>, sk[i].lv) <= er[i]
Steps == \A i \in {1, 2}, x \in 1 .. V : \A p \in Added(sk[i].lv, x) : UpdateOk(sk[i], x, p[1])
MergeSteps == \A i \in {1, 2} : sk[3 - i].n > 0 => \A p \in Merges(sk[i], sk[3 - i]) : MergeOk(sk[i], sk[3 - i], p[1])
Queries == LET s == sk[1] IN s.n > 0 =>
    LET v == View(s) IN
    /\ v.cw[Len(v.cw)] = s.n
    /\ \A y \in 1 .. V : RankIn(v, y, TRUE) >= RankIn(v, y, FALSE)
    /\ \A j \in 0 .. 2 * s.n : /\ QuantileIn(v, j, TRUE) <= QuantileIn(v, j, FALSE)
                               /\ RankIn(v, QuantileIn(v, j, TRUE), TRUE) >= NatRank(j, TRUE)
                               /\ RankIn(v, QuantileIn(v, j, FALSE), FALSE) <= NatRank(j, FALSE)
Emit == (EMIT /\ Len(hist) = D + 2) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
