----------------------------- MODULE MC_Layout -----------------------------
(***************************************************************************)
(* A writer chooses a format and a content and puts down the header and    *)
(* then the entries, in any order where the layout leaves it open; the     *)
(* medium may stop at any byte.  The layouts are codes: a whole image is   *)
(* of the content written and of no other, in no other format, and what    *)
(* the medium cut is of none.                                              *)
(***************************************************************************)
EXTENDS Layout
CONSTANTS NK            \* how many different keys
VARIABLES fmt, c, left, img, st
vars == <<fmt, c, left, img, st>>

Sh == <<204, 147>>
Th == {Full, <<0, 0, 0, 0, 0, 0, 0, 64>>}
Key(i) == <<<<1, 0, 0, 0, 0, 0, 0, 1>>, <<3, 0, 7, 0, 0, 0, 0, 2>>, <<3, 0, 7, 0, 0, 0, 128, 2>>>>[i]
Seqs == UNION {[1 .. n -> 1 .. NK] : n \in 0 .. NK}
Distinct == {s \in Seqs : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Up == {s \in Distinct : \A i, j \in DOMAIN s : i < j => s[i] < s[j]}
Of(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

ThetaC == {[emp |-> e, ord |-> o, sh |-> Sh, theta |-> t, hs |-> Of(s, Key)] : e \in BOOLEAN, o \in BOOLEAN, t \in Th, s \in Up}
Sane(x) == x.emp => x.theta = Full /\ x.hs = <<>>
Summary(i) == LE(i, 4)
TupleC == {[emp |-> x.emp, ord |-> x.ord, sh |-> Sh, theta |-> x.theta, hs |-> x.hs, sums |-> ss] :
             x \in {y \in ThetaC : Sane(y) /\ Len(y.hs) <= 2}, ss \in UNION {[1 .. n -> {Summary(1), Summary(2)}] : n \in 0 .. 2}}
Coupon(i) == LE(i, 3) \o <<4 * i>>
HllC == {[lgk |-> 7, type |-> t, cmp |-> p, cs |-> Of(s, Coupon), regs |-> <<>>, ooo |-> o, hip |-> Zeros(8), kxq |-> <<>>] :
           t \in {0, 2}, p \in BOOLEAN, o \in {FALSE}, s \in Up \cup {<<1, 2, 3, 4, 5, 6, 7, 8>>}}
One(i) == LE(i, 8)
ResC == {[k |-> k, rf |-> rf, n |-> n, items |-> Of(s, One)] : k \in {2, 3}, rf \in {0, 3}, n \in 0 .. 3, s \in {q \in Seqs : Len(q) <= 3}}
FreqC == {[lgmax |-> 3, lgcur |-> 3, total |-> LE(tt, 8), off |-> LE(o, 8), keys |-> Of(s, One), cnts |-> cs] :
            tt \in {0, 4}, o \in {0, 1}, s \in Up, cs \in UNION {[1 .. n -> {LE(1, 8), LE(2, 8)}] : n \in 0 .. NK}}
BloomC == {[cap |-> 64, nh |-> h, seed |-> LE(9, 8), ones |-> s] : h \in {1, 2}, s \in {<<>>, <<0>>, <<7>>, <<8>>, <<0, 63>>, <<1, 2, 3>>}}
VarC == {[k |-> k, rf |-> 3, n |-> n, hw |-> [i \in DOMAIN h |-> LE(i, 8)], hi |-> Of(h, One), rw |-> IF r = <<>> THEN <<>> ELSE LE(5, 8), ri |-> Of(r, One), gad |-> FALSE] :
           k \in {2, 3}, n \in {0, 2, 5}, h \in {q \in Up : Len(q) <= 2}, r \in {q \in Seqs : Len(q) <= 1}}
Contents(f) ==
  CASE f \in {"theta1", "theta2", "theta3"} -> {x \in ThetaC : Sane(x)}
    [] f = "theta4" -> {x \in ThetaC : Sane(x) /\ Compressible(x)}
    [] f = "tuple" -> {x \in TupleC : Len(x.hs) = Len(x.sums)}
    [] f = "hll" -> HllC
    [] f = "reservoir" -> {x \in ResC : IF x.n > x.k THEN Len(x.items) = x.k ELSE Len(x.items) = x.n}
    [] f = "freq" -> {x \in FreqC : Len(x.keys) = Len(x.cnts) /\ (x.total = Zeros(8) => x.keys = <<>> /\ x.off = Zeros(8))}
    [] f = "bloom" -> BloomC
    [] f = "varopt" -> {x \in VarC : /\ (x.n = 0 <=> x.hi = <<>> /\ x.ri = <<>>) /\ (x.ri = <<>> => x.n = Len(x.hi))
                                     /\ Len(x.hi) + Len(x.ri) <= x.k}
Formats == {"theta1", "theta2", "theta3", "theta4", "tuple", "hll", "reservoir", "freq", "bloom", "varopt"}

(* ---- what is written first, and the entries after it -------------------*)
Flags(x) == 10 + If(x.emp, 4) + If(x.ord, 16)
Whole(f, x) ==    \* formats without entries: one block
  CASE f = "theta4" -> LET ds == Deltas(x.hs)
                           w == Max({Bits(ds[i]) : i \in DOMAIN ds})
                       IN <<IF Est(x) THEN 2 ELSE 1, 4, 3, w, 1, Flags(x)>> \o x.sh \o (IF Est(x) THEN x.theta ELSE <<>>) \o
                          LE(Len(x.hs), 1) \o PackHigh(ds, w)
    [] f = "bloom" -> LET e == x.ones = <<>> IN
                      <<IF e THEN 3 ELSE 4, 1, 21, If(e, 4)>> \o LE(x.nh, 2) \o Zeros(2) \o x.seed \o LE(1, 4) \o Zeros(4) \o
                      (IF e THEN <<>> ELSE LE(Len(x.ones), 8) \o
                         [j \in 1 .. 8 |-> Sum([t \in 1 .. 8 |-> If(\E q \in RangeOf(x.ones) : q = 8 * j + t - 9, Pow(2, t - 1))])])
HeadOf(f, x) ==
  CASE f = "theta1" -> <<3, 1, 3, 0, 0, 0, 0, 0>> \o LE(Len(x.hs), 4) \o Zeros(4) \o x.theta
    [] f = "theta2" -> LET n == IF Est(x) THEN 3 ELSE IF x.hs = <<>> THEN 1 ELSE 2
                       IN <<n, 2, 3, 0, 0, 0>> \o x.sh \o Count(x, n) \o (IF n = 3 THEN x.theta ELSE <<>>)
    [] f = "theta3" -> Theta3Head(x, Flags(x))
    [] f = "tuple" -> TupleHead(x, Flags(x), 3, 1)
    [] f = "hll" -> HllHead(x)
    [] f = "reservoir" -> <<64 * x.rf + (IF x.n = 0 THEN 1 ELSE 2), 2, 11, If(x.n = 0, 4)>> \o LE(x.k, 4) \o (IF x.n = 0 THEN <<>> ELSE LE(x.n, 8))
    [] f = "freq" -> LET e == x.total = Zeros(8) IN
                     <<IF e THEN 1 ELSE 4, 1, 10, 3, 3, If(e, 5), 0, 0>> \o
                     (IF e THEN <<>> ELSE LE(Len(x.keys), 4) \o Zeros(4) \o x.total \o x.off)
    [] f = "varopt" -> LET e == x.n = 0  r == Len(x.ri) IN
                       <<192 + (IF e THEN 1 ELSE IF r = 0 THEN 3 ELSE 4), 2, 13, If(e, 4)>> \o LE(x.k, 4) \o
                       (IF e THEN <<>> ELSE LE(x.n, 8) \o LE(Len(x.hi), 4) \o LE(r, 4) \o x.rw)
    [] OTHER -> Whole(f, x)
(* freq and varopt put one column after the other: the writer picks the    *)
(* order of the rows first (left is then what remains of the columns).     *)
RowsOf(f, x) ==
  CASE f \in {"theta1", "theta2", "theta3"} -> x.hs
    [] f = "tuple" -> TuplePair(x)
    [] f = "hll" -> IF x.cmp THEN x.cs ELSE x.cs \o [i \in 1 .. Pow(2, HllCells(x)) - Len(x.cs) |-> Zeros(4)]
    [] f = "reservoir" -> x.items
    [] OTHER -> <<>>
Columns(f, x, p) ==
  CASE f = "freq" -> Cat([i \in DOMAIN p |-> x.cnts[p[i]]]) \o Cat([i \in DOMAIN p |-> x.keys[p[i]]])
    [] f = "varopt" -> Cat([i \in DOMAIN p |-> x.hw[p[i]]]) \o Cat([i \in DOMAIN p |-> x.hi[p[i]]]) \o Cat(x.ri)
Perms(n) == {p \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => p[i] # p[j]}
Open(f, x) == CASE f = "theta3" -> ~x.ord [] f = "theta1" -> ~x.ord [] f = "theta2" -> ~x.ord [] f = "tuple" -> ~x.ord
               [] f = "hll" -> x.cmp /\ Len(x.cs) < 8 [] OTHER -> FALSE

Init == fmt \in Formats /\ c \in Contents(fmt) /\ left = <<>> /\ img = <<>> /\ st = "new"
Begin == /\ st = "new" /\ st' = "writing" /\ UNCHANGED <<fmt, c>>
         /\ IF fmt \in {"freq", "varopt"}
            THEN \E p \in Perms(Len(IF fmt = "freq" THEN c.keys ELSE c.hi)) :
                   img' = HeadOf(fmt, c) \o (IF (fmt = "freq" /\ c.total = Zeros(8)) \/ (fmt = "varopt" /\ c.n = 0) THEN <<>> ELSE Columns(fmt, c, p)) /\ left' = <<>>
            ELSE img' = HeadOf(fmt, c) /\ left' = RowsOf(fmt, c)
Put == /\ st = "writing" /\ left # <<>> /\ UNCHANGED <<fmt, c, st>>
       /\ \E i \in IF Open(fmt, c) THEN DOMAIN left ELSE {1} :
            img' = img \o left[i] /\ left' = SubSeq(left, 1, i - 1) \o SubSeq(left, i + 1, Len(left))
Close == st = "writing" /\ left = <<>> /\ st' = "whole" /\ UNCHANGED <<fmt, c, left, img>>
Cut == st = "whole" /\ \E n \in 0 .. Len(img) - 1 : img' = SubSeq(img, 1, n) /\ st' = "cut" /\ UNCHANGED <<fmt, c, left>>
Spec == Init /\ [][Begin \/ Put \/ Close \/ Cut]_vars

(* What of a content its format keeps.                                     *)
Kept(f, x) ==
  CASE f = "theta1" -> <<x.theta, RangeOf(x.hs)>>
    [] f = "theta2" -> <<x.theta, RangeOf(x.hs)>>
    [] f = "theta3" -> <<x.emp, Len(x.hs) > 1 /\ x.ord, x.theta, RangeOf(x.hs)>>
    [] f = "theta4" -> <<x.theta, RangeOf(x.hs)>>
    [] f = "tuple" -> <<x.emp, Len(x.hs) > 1 /\ x.ord, x.theta, RangeOf(TuplePair(x))>>
    [] f = "hll" -> <<x.type, x.cmp, RangeOf(x.cs)>>
    [] f = "reservoir" -> IF x.n = 0 THEN <<x.k, x.rf>> ELSE <<x.k, x.rf, x.n, x.items>>
    [] f = "freq" -> <<x.total, x.off, {<<x.keys[i], x.cnts[i]>> : i \in DOMAIN x.keys}>>
    [] f = "bloom" -> <<x.nh, RangeOf(x.ones)>>
    [] f = "varopt" -> <<x.k, x.n, {<<x.hi[i], x.hw[i]>> : i \in DOMAIN x.hi}, x.ri>>
OneContent == st = "whole" => /\ Is(fmt, c, img)
                              /\ \A x \in Contents(fmt) : Is(fmt, x, img) => Kept(fmt, x) = Kept(fmt, c)
NoOtherFormat == st = "whole" => \A f \in Formats : f # fmt => \A x \in Contents(f) : ~Is(f, x, img)
CutIsNone == st = "cut" => \A x \in Contents(fmt) : ~Is(fmt, x, img)
=============================================================================
