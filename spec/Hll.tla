-------------------------------- MODULE Hll --------------------------------
(***************************************************************************)
(* HLL sketches.  An offered item is a coupon [c, a, v]: its identity c    *)
(* (a rank of the 32-bit coupon), the low bits a of its address, and its   *)
(* register value v.  A sketch is [lgk, typ, dense, cs, regs, emp]: either *)
(* the set cs of distinct coupons or, when dense, the sequence of          *)
(* registers, slot i at position i + 1.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Zeros(lgk) == [i \in 1 .. 2 ^ lgk |-> 0]
Put(regs, k) ==
    LET i == (k.a % Len(regs)) + 1
    IN IF regs[i] >= k.v THEN regs ELSE [regs EXCEPT ![i] = k.v]
PutAll(regs, ks) == FoldLeft(Put, regs, ks)
MaxRegs(r, s) == [i \in DOMAIN r |-> Max2(r[i], s[i])]
RECURSIVE FoldTo(_, _)
FoldTo(r, n) ==
    IF Len(r) = n THEN r
    ELSE LET m == Len(r) \div 2
         IN FoldTo([i \in 1 .. m |-> Max2(r[i], r[i + m])], n)

Sketch(lgk, typ, dense, cs, regs) == [lgk |-> lgk, typ |-> typ, dense |-> dense, cs |-> cs, regs |-> regs]
Fresh(lgk, typ) == Sketch(lgk, typ, FALSE, {}, <<>>)
IsEmpty(s) == ~s.dense /\ s.cs = {}

(* All registers that the content of s amounts to, at lgk n <= s.lgk.      *)
RegsOf(s, n) == IF s.dense THEN FoldTo(s.regs, 2 ^ n) ELSE PutAll(Zeros(n), SetToSeq(s.cs))

(* Offering the sequence of coupons ks turns s into p.                     *)
OfferRel(s, ks, p) ==
    /\ p.lgk = s.lgk /\ p.typ = s.typ
    /\ IF p.dense
       THEN p.cs = {} /\ p.regs = PutAll(RegsOf(s, s.lgk), ks)
       ELSE ~s.dense /\ p.regs = <<>> /\ p.cs = s.cs \cup ToSet(ks)

SameContent(s, p) == p.lgk = s.lgk /\ p.dense = s.dense /\ p.cs = s.cs /\ p.regs = s.regs

(* Merging source s into the union gadget g of maximum lgk mx.             *)
MergedLgK(g, mx, s) == IF IsEmpty(s) \/ ~s.dense THEN g.lgk
                       ELSE Min2(s.lgk, IF g.dense THEN g.lgk ELSE mx)
(* Folding a dense source down is optional: it may be refused.             *)
MayRefuse(g, mx, s) == s.dense /\ s.lgk > MergedLgK(g, mx, s)
MergeRel(g, mx, s, p) ==
    IF IsEmpty(s) THEN SameContent(g, p) /\ p.typ = g.typ
    ELSE IF ~s.dense THEN OfferRel(g, SetToSeq(s.cs), p)
    ELSE LET n == MergedLgK(g, mx, s)
         IN /\ p.lgk = n /\ p.typ = g.typ /\ p.dense /\ p.cs = {}
            /\ p.regs = MaxRegs(FoldTo(s.regs, 2 ^ n), RegsOf(g, n))
=============================================================================
