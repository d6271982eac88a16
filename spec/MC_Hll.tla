------------------------------ MODULE MC_Hll ------------------------------
(***************************************************************************)
(* Implementation-shaped HLL: a coupon list of at most CAP entries that is *)
(* promoted to an HLL_4 register array (nibbles relative to a current      *)
(* minimum, exceptions in an auxiliary map, shifts of the minimum), and a  *)
(* union whose HLL_8 gadget is replaced, folded or merged by the case      *)
(* analysis of the source's mode and lgK.  Checked against module Hll.     *)
(***************************************************************************)
EXTENDS Hll, TLC, Json

CONSTANTS V, TOK, CAP, MAXLG, D, EMIT
\* TOK: first offset from the minimum that needs an exception (15 in the code)
LgOf == <<1, 2>>

VARIABLES sk, seen, gd, uc, ok, hist
vars == <<sk, seen, gd, uc, ok, hist>>
view == <<sk, seen, gd, uc, ok, Len(hist)>>

Cp(a, v) == [c |-> a * 10 + v, a |-> a, v |-> v]
NewSk(lg) == [lgk |-> lg, dense |-> FALSE, cs |-> {}, nib |-> <<>>, cm |-> 0, num |-> 0, aux |-> {}]
NewArr(s) == [s EXCEPT !.dense = TRUE, !.cs = {}, !.nib = Zeros(s.lgk), !.cm = 0, !.num = 2 ^ s.lgk, !.aux = {}]

AuxVal(s, i) == (CHOOSE x \in s.aux : x[1] = i)[2]
Reg(s, i) == IF s.nib[i] = TOK THEN AuxVal(s, i) ELSE s.nib[i] + s.cm
Decode(s) == [i \in DOMAIN s.nib |-> Reg(s, i)]

(* shiftToBiggerCurMin                                                     *)
Shift(s) ==
    LET ncm == s.cm + 1
        back == {x \in s.aux : x[2] - ncm < TOK}
        nib == [i \in DOMAIN s.nib |->
                  IF s.nib[i] < TOK THEN s.nib[i] - 1
                  ELSE IF \E x \in back : x[1] = i THEN TOK - 1 ELSE TOK]
    IN [s EXCEPT !.nib = nib, !.cm = ncm, !.aux = @ \ back,
                 !.num = Cardinality({i \in DOMAIN s.nib : s.nib[i] < TOK /\ nib[i] = 0})]
RECURSIVE ShiftAll(_)
ShiftAll(s) == IF s.num = 0 THEN ShiftAll(Shift(s)) ELSE s
Put4(s, k) ==
    LET i == (k.a % Len(s.nib)) + 1
        old == IF s.nib[i] = TOK THEN AuxVal(s, i) ELSE s.nib[i] + s.cm
        d == k.v - s.cm
        s1 == IF d >= TOK
              THEN [s EXCEPT !.nib[i] = TOK, !.aux = {x \in @ : x[1] # i} \cup {<<i, k.v>>}]
              ELSE [s EXCEPT !.nib[i] = d]
    IN IF k.v <= old THEN s
       ELSE IF old = s.cm THEN ShiftAll([s1 EXCEPT !.num = @ - 1]) ELSE s1
Feed(s, k) ==
    IF s.dense THEN Put4(s, k)
    ELSE LET cs == s.cs \cup {k}
         IN IF Cardinality(cs) < CAP THEN [s EXCEPT !.cs = cs]
            ELSE FoldLeft(Put4, NewArr(s), SetToSeq(cs))
(* HLL_4 rebuilt from registers (conversion to another width and back)     *)
MinReg(r) == CHOOSE m \in {r[i] : i \in DOMAIN r} : \A i \in DOMAIN r : m <= r[i]
Rebuilt(s) ==
    LET r == Decode(s) m == MinReg(r)
    IN [s EXCEPT !.cm = m, !.num = Cardinality({i \in DOMAIN r : r[i] = m}),
                 !.nib = [i \in DOMAIN r |-> IF r[i] - m >= TOK THEN TOK ELSE r[i] - m],
                 !.aux = {<<i, r[i]>> : i \in {j \in DOMAIN r : r[j] - m >= TOK}}]

AbsSk(s) == Sketch(s.lgk, 0, s.dense, s.cs, IF s.dense THEN Decode(s) ELSE <<>>)

(* the union gadget: HLL_8, plain registers                                *)
FeedG(g, k) ==
    IF g.dense THEN [g EXCEPT !.regs = Put(@, k)]
    ELSE LET cs == g.cs \cup {k}
         IN IF Cardinality(cs) < CAP THEN [g EXCEPT !.cs = cs]
            ELSE [g EXCEPT !.dense = TRUE, !.cs = {}, !.regs = PutAll(Zeros(g.lgk), SetToSeq(cs))]
MergeG(g, s) ==
    IF IsEmpty(s) THEN g
    ELSE IF ~s.dense THEN FoldLeft(FeedG, g, SetToSeq(s.cs))
    ELSE IF ~g.dense   \* copy the source, merge the gadget's coupons into it
         THEN [g EXCEPT !.lgk = s.lgk, !.dense = TRUE, !.cs = {}, !.regs = PutAll(s.regs, SetToSeq(g.cs))]
    ELSE IF s.lgk = g.lgk THEN [g EXCEPT !.regs = MaxRegs(s.regs, @)]
    ELSE [g EXCEPT !.lgk = s.lgk, !.regs = MaxRegs(s.regs, FoldTo(@, 2 ^ s.lgk))]

Init ==
    /\ sk = [i \in {1, 2} |-> NewSk(LgOf[i])] /\ seen = [i \in {1, 2} |-> {}]
    /\ gd = Fresh(MAXLG, 2) /\ uc = {} /\ ok = TRUE
    /\ hist = << <<"newh", 1, 0>>, <<"newh", 2, 1>>, <<"newn", 3, 1>> >>
Log(c) == hist' = Append(hist, c)

Upd(i, a, v) ==
    /\ sk' = [sk EXCEPT ![i] = Feed(@, Cp(a, v))]
    /\ seen' = [seen EXCEPT ![i] = @ \cup {Cp(a, v)}]
    /\ ok' = OfferRel(AbsSk(sk[i]), <<Cp(a, v)>>, AbsSk(sk'[i]))
    /\ Log(<<IF v > 2 THEN "high" ELSE "few", i>>) /\ UNCHANGED <<gd, uc>>
Fill(i) ==
    LET ks == [a \in 1 .. 4 |-> Cp(a - 1, 1)] IN
    /\ sk' = [sk EXCEPT ![i] = FoldLeft(Feed, @, ks)]
    /\ seen' = [seen EXCEPT ![i] = @ \cup ToSet(ks)]
    /\ ok' = OfferRel(AbsSk(sk[i]), ks, AbsSk(sk'[i]))
    /\ Log(<<"many", i>>) /\ UNCHANGED <<gd, uc>>
UUpd(a, v) ==
    /\ gd' = FeedG(gd, Cp(a, v)) /\ ok' = OfferRel(gd, <<Cp(a, v)>>, gd')
    /\ uc' = uc \cup {Cp(a, v)}
    /\ Log(<<"few", 3>>) /\ UNCHANGED <<sk, seen>>
Merge(i) ==
    LET s == AbsSk(sk[i]) IN
    /\ IF MayRefuse(gd, MAXLG, s) THEN UNCHANGED <<gd, uc, ok>>
       ELSE /\ gd' = MergeG(gd, s) /\ ok' = MergeRel(gd, MAXLG, s, gd')
            /\ uc' = uc \cup seen[i]
    /\ Log(<<"umerge", 3, i>>) /\ UNCHANGED <<sk, seen>>
Convert(i) ==
    /\ sk[i].dense
    /\ sk' = [sk EXCEPT ![i] = Rebuilt(@)] /\ ok' = (AbsSk(sk'[i]) = AbsSk(sk[i]))
    /\ Log(<<"copy", 5, i>>) /\ UNCHANGED <<seen, gd, uc>>
Side(op, src) ==
    /\ Log(<<op, 6, src>>) /\ UNCHANGED <<sk, seen, gd, uc, ok>>
Reset(i) ==
    /\ sk' = [sk EXCEPT ![i] = NewSk(LgOf[i])] /\ seen' = [seen EXCEPT ![i] = {}]
    /\ Log(<<"reset", i>>) /\ UNCHANGED <<gd, uc, ok>>
UReset ==
    /\ gd' = Fresh(gd.lgk, 2) /\ uc' = {}
    /\ Log(<<"reset", 3>>) /\ UNCHANGED <<sk, seen, ok>>

Next ==
    /\ Len(hist) < D + 3
    /\ \/ \E i \in {1, 2}, a \in 0 .. 3, v \in 1 .. V : Upd(i, a, v)
       \/ \E i \in {1, 2} : Fill(i) \/ Merge(i) \/ Convert(i) \/ Reset(i)
       \/ \E a \in {0, 3}, v \in {1, V} : UUpd(a, v)
       \/ UReset
       \/ EMIT /\ (Side("ser", 1) \/ Side("ser", 2) \/ Side("ser", 3) \/ Side("ures", 3))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* registers are the slot-wise maximum of everything offered               *)
Faithful == \A i \in {1, 2} :
    LET s == sk[i] IN
    IF s.dense THEN Decode(s) = PutAll(Zeros(s.lgk), SetToSeq(seen[i]))
    ELSE s.cs = seen[i]
CurMin == \A i \in {1, 2} : sk[i].dense =>
    LET r == Decode(sk[i]) IN
    /\ \A j \in DOMAIN r : r[j] >= sk[i].cm
    /\ sk[i].num = Cardinality({j \in DOMAIN r : r[j] = sk[i].cm}) /\ sk[i].num > 0
    /\ {x[1] : x \in sk[i].aux} = {j \in DOMAIN r : sk[i].nib[j] = TOK}
    /\ \A x \in sk[i].aux : x[2] >= sk[i].cm + TOK
Contract == ok
(* the union is the sketch of everything merged, at its lgK                *)
UnionIsAll == IF gd.dense THEN gd.regs = PutAll(Zeros(gd.lgk), SetToSeq(uc)) ELSE gd.cs = uc

Emit == (EMIT /\ Len(hist) = D + 3) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
