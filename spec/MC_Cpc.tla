------------------------------ MODULE MC_Cpc ------------------------------
(***************************************************************************)
(* Implementation-shaped CPC: the coupon matrix is represented by a window *)
(* of W columns at an offset, a table of surprising values (ones right of  *)
(* the window, zeros left of it), a coupon count and the first interesting *)
(* column; the window slides when the count crosses a threshold.  A union  *)
(* is a sparse sketch or a plain matrix, folded to smaller row counts.     *)
(* NC columns stand for the 64 of the code, W for 8, and the thresholds    *)
(* C < K (sparse) and C >= (W + off) * K for 3K/32 and (27/8 + off) * K.   *)
(***************************************************************************)
EXTENDS Cpc, TLC, Json, SequencesExt

CONSTANTS NC, W, D, EMIT
LgOf == <<1, 0>>          \* lgk of sketches 1 and 2
ULG == 1

VARIABLES sk, seen, un, useen, hist
vars == <<sk, seen, un, useen, hist>>
view == <<sk, seen, un, useen, Len(hist)>>

K(s) == 2 ^ s.lgk
Rows(s) == 0 .. K(s) - 1
Cols == 0 .. NC - 1
Cell(r, c) == r * 64 + c
RowOf(x) == x \div 64
ColOf(x) == x % 64

New(lg) == [lgk |-> lg, n |-> 0, off |-> 0, win |-> {}, win0 |-> TRUE, tab |-> {}, fi |-> 0]
\* win: set of cells inside the window; win0: no window yet (sparse)
Sparse(n, lg) == n < 2 ^ lg
OffsetOf(n, lg) == LET t == n - (W - 1) * (2 ^ lg) IN IF t < 0 THEN 0 ELSE t \div (2 ^ lg)

(* bitMatrixOfSketch                                                       *)
Matrix(s) ==
    LET early == {Cell(r, c) : r \in Rows(s), c \in 0 .. s.off - 1}
        base == early \cup s.win
    IN (base \ s.tab) \cup (s.tab \ base)

(* representation of matrix m with the window at offset o                  *)
Rebuild(m, lg, o) ==
    LET rows == 0 .. 2 ^ lg - 1
        tab == ({Cell(r, c) : r \in rows, c \in 0 .. o - 1} \ m)
               \cup {x \in m : ColOf(x) >= o + W}
        cols == {ColOf(x) : x \in tab}
        fi == IF cols = {} THEN o ELSE Min2(o, CHOOSE c \in cols : \A d \in cols : c <= d)
    IN [lgk |-> lg, n |-> Cardinality(m), off |-> o,
        win |-> {x \in m : ColOf(x) >= o /\ ColOf(x) < o + W}, win0 |-> FALSE, tab |-> tab, fi |-> fi]

Shifted(s) == IF s.n >= (W + s.off) * K(s) THEN [Rebuild(Matrix(s), s.lgk, s.off + 1) EXCEPT !.n = s.n] ELSE s

Feed(s, x0) ==
    LET x == Fold(x0, s.lgk) c == ColOf(x) IN
    IF c < s.fi THEN s
    ELSE IF Sparse(s.n, s.lgk)
         THEN IF x \in s.tab THEN s
              ELSE LET t == [s EXCEPT !.tab = @ \cup {x}, !.n = @ + 1]
                   IN IF Sparse(t.n, t.lgk) THEN t ELSE [Rebuild(t.tab, t.lgk, 0) EXCEPT !.fi = 0]
         ELSE IF c < s.off
              THEN IF x \in s.tab THEN Shifted([s EXCEPT !.tab = @ \ {x}, !.n = @ + 1]) ELSE s
         ELSE IF c < s.off + W
              THEN IF x \in s.win THEN s ELSE Shifted([s EXCEPT !.win = @ \cup {x}, !.n = @ + 1])
         ELSE IF x \in s.tab THEN s ELSE Shifted([s EXCEPT !.tab = @ \cup {x}, !.n = @ + 1])

(* union: [lgk, acc] sparse accumulator, or matrix                         *)
NewU(lg) == [lgk |-> lg, dense |-> FALSE, acc |-> New(lg), m |-> {}]
Dense(u, m) == [u EXCEPT !.dense = TRUE, !.acc = New(0), !.m = m]
Walk(acc, cells) == FoldLeft(Feed, acc, SetToSeq(cells))
Settle(u) == IF Sparse(u.acc.n, u.acc.lgk) THEN u ELSE Dense(u, Matrix(u.acc))
ReduceTo(u, lg) ==
    IF lg >= u.lgk THEN u
    ELSE IF u.dense THEN [u EXCEPT !.lgk = lg, !.m = FoldAll(u.m, lg)]
    ELSE LET a == Walk(New(lg), u.acc.tab) IN Settle([u EXCEPT !.lgk = lg, !.acc = a])
UMerge(u0, s) ==
    IF s.n = 0 THEN u0
    ELSE LET u1 == ReduceTo(u0, s.lgk)
             u == IF ~s.win0 /\ ~u1.dense THEN Dense(u1, Matrix(u1.acc)) ELSE u1
         IN IF s.win0
            THEN IF u.dense THEN [u EXCEPT !.m = @ \cup FoldAll(s.tab, u.lgk)]
                 ELSE Settle([u EXCEPT !.acc = Walk(@, s.tab)])
            ELSE IF s.off = 0
                 THEN [u EXCEPT !.m = @ \cup FoldAll(s.win, u.lgk) \cup FoldAll(s.tab, u.lgk)]
                 ELSE [u EXCEPT !.m = @ \cup FoldAll(Matrix(s), u.lgk)]
UMatrix(u) == IF u.dense THEN u.m ELSE Matrix(u.acc)
UResult(u) == IF u.dense THEN Rebuild(u.m, u.lgk, OffsetOf(Cardinality(u.m), u.lgk)) ELSE u.acc

AbsU(u) == Sketch(u.lgk, 0, UMatrix(u), FALSE)
AbsS(s) == Sketch(s.lgk, 0, Matrix(s), FALSE)

Init ==
    /\ sk = [i \in {1, 2} |-> New(LgOf[i])] /\ seen = [i \in {1, 2} |-> {}]
    /\ un = NewU(ULG) /\ useen = {}
    /\ hist = << <<"newc", 1, 1>>, <<"newc", 2, 0>>, <<"newn", 3, 1>> >>
Log(c) == hist' = Append(hist, c)

Full(s) == s.n >= (W + NC - W) * K(s)    \* the window cannot slide any further
Upd(i, r, c) ==
    /\ ~Full([sk[i] EXCEPT !.n = @ + 1])
    /\ sk' = [sk EXCEPT ![i] = Feed(@, Cell(r, c))]
    /\ seen' = [seen EXCEPT ![i] = @ \cup {Fold(Cell(r, c), sk[i].lgk)}]
    /\ Log(<<"upd", i, r, c>>) /\ UNCHANGED <<un, useen>>
Merge(i) ==
    /\ un' = UMerge(un, sk[i])
    /\ useen' = useen \cup {x : x \in seen[i]}
    /\ Log(<<"umerge", 3, i>>) /\ UNCHANGED <<sk, seen>>
(* the result of the union replaces sketch 1, and is updated further       *)
Take ==
    /\ un.lgk = LgOf[1]
    /\ sk' = [sk EXCEPT ![1] = UResult(un)] /\ seen' = [seen EXCEPT ![1] = UMatrix(un)]
    /\ Log(<<"ures", 1, 3>>) /\ UNCHANGED <<un, useen>>
Side(op, g, src) == Log(<<op, g, src>>) /\ UNCHANGED <<sk, seen, un, useen>>

Next ==
    /\ Len(hist) < D + 3
    /\ \/ \E r \in 0 .. 1, c \in Cols : Upd(1, r, c)
       \/ \E c \in Cols : Upd(2, c % 2, c)
       \/ \E i \in {1, 2} : Merge(i)
       \/ Take
       \/ EMIT /\ (Side("ser", 5, 1) \/ Side("ser", 6, 2) \/ Side("copy", 7, 1) \/ Side("ures", 8, 3))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Faithful == \A i \in {1, 2} : Matrix(sk[i]) = seen[i] /\ sk[i].n = Cardinality(seen[i])
Shape == \A i \in {1, 2} : LET s == sk[i] IN
    /\ s.win0 = Sparse(s.n, s.lgk)
    /\ s.off = OffsetOf(s.n, s.lgk)
    /\ \A x \in s.tab : s.win0 \/ ColOf(x) < s.off \/ ColOf(x) >= s.off + W
    /\ \A x \in s.win : ColOf(x) >= s.off /\ ColOf(x) < s.off + W
    /\ \A r \in Rows(s), c \in 0 .. s.fi - 1 : Cell(r, c) \in seen[i]
UnionExact == UMatrix(un) = FoldAll(useen, un.lgk) /\ (un.dense \/ un.acc.win0)
Contract == \A i \in {1, 2} :
    /\ AbsU(UMerge(un, sk[i])) = Merged(AbsU(un), AbsS(sk[i]))
    /\ \A c \in Cols : AbsS(Feed(sk[i], Cell(1, c))) = Offered(AbsS(sk[i]), <<Cell(1, c)>>) \/ Full([sk[i] EXCEPT !.n = @ + 1])

Emit == (EMIT /\ Len(hist) = D + 3) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
