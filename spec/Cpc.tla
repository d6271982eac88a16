-------------------------------- MODULE Cpc --------------------------------
(***************************************************************************)
(* CPC sketches.  An offered item is a coupon, the number 64 * a + col of  *)
(* its row address a and its column; at lgk only the low lgk bits of the   *)
(* address count.  A sketch is [lgk, sid, cs, mg]: its size, seed, the set *)
(* of coupons and whether it came out of a merge.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fold(x, n) == ((x \div 64) % (2 ^ n)) * 64 + (x % 64)
FoldAll(S, n) == {Fold(x, n) : x \in S}
Min2(a, b) == IF a <= b THEN a ELSE b

Sketch(lgk, sid, cs, mg) == [lgk |-> lgk, sid |-> sid, cs |-> cs, mg |-> mg]
Fresh(lgk, sid) == Sketch(lgk, sid, {}, FALSE)

Offered(s, ks) == [s EXCEPT !.cs = @ \cup {Fold(ks[i], s.lgk) : i \in DOMAIN ks}]

(* merging s into the union u                                              *)
Refused(u, s) == u.sid # s.sid
Merged(u, s) ==
    IF s.cs = {} THEN u
    ELSE LET n == Min2(u.lgk, s.lgk)
         IN [u EXCEPT !.lgk = n, !.cs = FoldAll(u.cs, n) \cup FoldAll(s.cs, n)]
Result(u) == [u EXCEPT !.mg = TRUE]
=============================================================================
