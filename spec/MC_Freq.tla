------------------------------ MODULE MC_Freq ------------------------------
(***************************************************************************)
(* Two sketches, with maps of any size, updated, merged, reset; merging    *)
(* updates with the other's tracked items in any order; a purge subtracts  *)
(* any admissible value.                                                   *)
(***************************************************************************)
EXTENDS Freq, Json, SequencesExt

CONSTANTS P, CMAX, LGS, D, EMIT
VARIABLES sk, hist
vars == <<sk, hist>>
view == <<sk, Len(hist)>>

Outcomes(s, x, c) ==   \* <<counts, offset>> after one update
    LET v == Plus(s.cs, << <<x, c>> >>) IN
    IF Act(v) <= CapOf(s.lg) THEN {<<v, s.off>>}
    ELSE {<<Less(v, d), s.off + d>> : d \in {d \in {v[i] : i \in DOMAIN v} : PurgeOk(s.lg, v, d)}}
Take(s, x, c) == {[Offer(s, << <<x, c>> >>) EXCEPT !.cs = o[1], !.off = o[2]] : o \in Outcomes(s, x, c)}
Merges(a, b) ==
    LET items == {i \in DOMAIN b.cs : b.cs[i] > 0}
        Turn(left) == IF EMIT THEN {CHOOSE x \in left : TRUE} ELSE left
        RECURSIVE go(_, _)
        go(s, left) == IF left = {} THEN {s}
                       ELSE UNION {UNION {go([s EXCEPT !.cs = o[1], !.off = o[2]], left \ {x}) : o \in Outcomes(s, x, b.cs[x])} : x \in Turn(left)}
    IN {LET m == Absorb(a, b) IN [m EXCEPT !.cs = t.cs, !.off = t.off + b.off] : t \in go(a, items)}

Init == \E f \in [{1, 2} -> LGS] :
    sk = [i \in {1, 2} |-> Fresh(f[i], P)] /\ hist = << <<"newf", 1, f[1]>>, <<"newf", 2, f[2]>> >>
Log(c) == hist' = Append(hist, c)
Put(i, S, c) == \E t \in S : sk' = [sk EXCEPT ![i] = t] /\ Log(c)
Next ==
    /\ Len(hist) < D + 2
    /\ \/ \E i \in {1, 2}, x \in 1 .. P, c \in 1 .. CMAX : Put(i, Take(sk[i], x, c), <<"upd", i, x, c>>)
       \/ Put(1, Merges(sk[1], sk[2]), <<"merge", 1, 2>>)
       \/ Put(2, Merges(sk[2], sk[1]), <<"merge", 2, 1>>)
       \/ (EMIT /\ Put(1, {Fresh(sk[1].lg, P)}, <<"reset", 1>>))
       \/ (EMIT /\ \E i \in {1, 2} : Put(i, {sk[i]}, <<"ser", 4 + i, i>>))
       \/ (EMIT /\ \E i \in {1, 2} : Put(i, {sk[i]}, <<"query", i>>))
Spec == Init /\ [][Next]_vars

TrueSum(s) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE s[i] + f(i - 1) IN f(Len(s))
Good == \A i \in {1, 2} : LET s == sk[i] IN
    BoundsOk(s) /\ SpaceOk(s) /\ ErrorOk(s) /\ ExactOk(s) /\ s.w = TrueSum(s.tr)
(* the listing contract is satisfiable, and met by listing on the bounds   *)
Lists == \A i \in {1, 2}, t \in 0 .. 3, nfn \in BOOLEAN :
    LET s == sk[i] T == Thr(s, t) out == {x \in 1 .. P : s.cs[x] > 0 /\ (IF nfn THEN s.cs[x] + s.off ELSE s.cs[x]) >= T}
    IN MustList(s, t, nfn) \subseteq out /\ out \subseteq MayList(s, t, nfn)
(* the coarse description of several updates admits every merge            *)
Steps == \A i \in {1, 2} : LET a == sk[i] b == sk[3 - i] IN
    \A t \in Merges(a, b) : SeveralOk(a, b.cs, a.off + b.off, t.cs, t.off)
Emit == (EMIT /\ Len(hist) = D + 2) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
