------------------------------ MODULE MC_Req ------------------------------
(***************************************************************************)
(* Implementation-shaped REQ with 3 sections of size K: a level of 6K or   *)
(* more items compacts the inaccurate end beyond its protected half and    *)
(* the sections its schedule (a counter) spares; every second compaction   *)
(* takes the half the one before it did not take.  A sketch compresses     *)
(* when it holds as many items as all levels together may hold.            *)
(***************************************************************************)
EXTENDS Quant, Json

CONSTANTS K, V, D, T, BULK, EMIT
VARIABLES sk, st, tr, hist
vars == <<sk, st, tr, hist>>
view == <<sk, st, tr, Len(hist)>>
(* st[i][h] = <<state, coin>> of level h of sketch i                       *)

New == Fresh(T, K, 0)
Nom == 6 * K
TrailingOnes(n) == CHOOSE c \in 0 .. 20 : (n + 1) % (2 ^ c) = 0 /\ (n + 1) % (2 ^ (c + 1)) # 0

(* compaction of level h: <<levels, states>>, for every admissible coin    *)
Squeeze(lv, ss, h) ==
    LET a == lv[h] c == Len(a)
        secs == MinOf(TrailingOnes(ss[h][1]) + 1, 3)
        non0 == 3 * K + (3 - secs) * K
        non == IF (c - non0) % 2 = 1 THEN non0 + 1 ELSE non0
        out == IF T = "hra" THEN SubSeq(a, 1, c - non) ELSE SubSeq(a, non + 1, c)
        kept == IF T = "hra" THEN SubSeq(a, c - non + 1, c) ELSE SubSeq(a, 1, non)
        coins == IF ss[h][1] % 2 = 1 THEN {~ss[h][2]} ELSE BOOLEAN
        lv1 == IF h = Len(lv) THEN Append(lv, <<>>) ELSE lv
        ss1 == IF h = Len(lv) THEN Append(ss, <<0, FALSE>>) ELSE ss
    IN {<<[lv1 EXCEPT ![h] = kept, ![h + 1] = Sorted(@ \o Halve(out, o))],
          [ss1 EXCEPT ![h] = <<@[1] + 1, o>>]>> : o \in coins}
RECURSIVE Compress(_, _)
Compress(S, h) ==
    IF \A p \in S : h > Len(p[1]) THEN S
    ELSE Compress(UNION {IF h > Len(p[1]) \/ Len(p[1][h]) < Nom THEN {p} ELSE Squeeze(p[1], p[2], h) : p \in S}, h + 1)
Settle(lv, ss) == IF Retained(lv) >= Nom * Len(lv) THEN Compress({<<lv, ss>>}, 1) ELSE {<<lv, ss>>}

Put1(lv, x) == IF lv = <<>> THEN <<<<x>>>> ELSE [lv EXCEPT ![1] = Sorted(Append(@, x))]
Added(lv, ss, x) == Settle(Put1(lv, x), ss)
RECURSIVE Bits(_, _)
Bits(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
              ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * Bits(a \div 2, b \div 2)
Merges(a, sa, b, sb) ==
    LET n == MaxOf(Len(a), Len(b))
    IN Settle([h \in 1 .. n |-> Sorted(Lv(a, h) \o Lv(b, h))],
              [h \in 1 .. n |-> IF h > Len(sb) \/ h > Len(b) THEN sa[h]
                                ELSE IF h > Len(sa) THEN <<sb[h][1], FALSE>>
                                ELSE <<Bits(sa[h][1], sb[h][1]), sa[h][2]>>])

Init == sk = [i \in {1, 2} |-> New] /\ st = [i \in {1, 2} |-> <<<<0, FALSE>>>>] /\ tr = [i \in {1, 2} |-> <<>>]
        /\ hist = << <<"newq", 1>>, <<"newq", 2>> >>
Log(c) == hist' = Append(hist, c)
RECURSIVE Feed(_, _, _)
Feed(S, x, c) == IF c = 0 THEN S ELSE Feed(UNION {Added(p[1], p[2], x) : p \in S}, x, c - 1)
Times(x, c) == [i \in 1 .. c |-> x]
Upd(i, x, c) ==
    \E p \in Feed({<<sk[i].lv, st[i]>>}, x, c) :
        /\ sk' = [sk EXCEPT ![i] = [Offer(sk[i], Times(x, c)) EXCEPT !.lv = p[1]]]
        /\ st' = [st EXCEPT ![i] = p[2]]
        /\ tr' = [tr EXCEPT ![i] = Sorted(@ \o Times(x, c))]
        /\ Log(<<"upd", i, x>>)
Merge(i, j) ==
    /\ sk[j].n > 0
    /\ \E p \in Merges(sk[i].lv, st[i], sk[j].lv, st[j]) :
        /\ sk' = [sk EXCEPT ![i] = [Absorb(sk[i], sk[j]) EXCEPT !.lv = p[1]]]
        /\ st' = [st EXCEPT ![i] = p[2]]
        /\ tr' = [tr EXCEPT ![i] = Sorted(@ \o tr[j])]
        /\ Log(<<"merge", i, j>>)
Reset(i) == sk' = [sk EXCEPT ![i] = New] /\ st' = [st EXCEPT ![i] = <<<<0, FALSE>>>>] /\ tr' = [tr EXCEPT ![i] = <<>>] /\ Log(<<"reset", i>>)
Side(c) == Log(c) /\ UNCHANGED <<sk, st, tr>>
Next ==
    /\ Len(hist) < D + 2
    /\ \/ \E x \in 1 .. V : Upd(1, x, BULK)
       \/ \E x \in {1, V} : Upd(2, x, BULK)
       \/ Merge(1, 2) \/ Merge(2, 1)
       \/ EMIT /\ (Reset(2) \/ Side(<<"query", 1>>) \/ Side(<<"query", 2>>))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Good == \A i \in {1, 2} : LET s == sk[i] IN
    /\ WeightOk(s, s.lv) /\ Shaped(s.lv) /\ InRange(s, s.lv) /\ ExactOk(s, s.lv) /\ SpaceOk(s, s.lv)
    /\ s.n > 0 => s.mn = tr[i][1] /\ s.mx = tr[i][Len(tr[i])]
Protected == \A i \in {1, 2} : AccurateEndOk(sk[i], sk[i].lv) /\ sk[i].prot = Trim(T, tr[i], 3 * K)
Steps == \A i \in {1, 2}, x \in 1 .. V : \A p \in Added(sk[i].lv, st[i], x) : UpdateOk(sk[i], x, p[1])
MergeSteps == \A i \in {1, 2} : sk[3 - i].n > 0 =>
    \A p \in Merges(sk[i].lv, st[i], sk[3 - i].lv, st[3 - i]) : MergeOk(sk[i], sk[3 - i], p[1])
Queries == LET s == sk[1] IN s.n > 0 =>
    LET v == View(s) IN
    /\ v.cw[Len(v.cw)] = s.n /\ v.xs[1] = s.mn /\ v.xs[Len(v.xs)] = s.mx
    /\ \A y \in 1 .. V : RankIn(v, y, TRUE) >= RankIn(v, y, FALSE)
    /\ \A j \in 0 .. 2 * s.n : QuantileIn(v, j, TRUE) <= QuantileIn(v, j, FALSE)
Emit == (EMIT /\ Len(hist) = D + 2) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
