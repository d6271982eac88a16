----------------------------- MODULE MC_Theta -----------------------------
(***************************************************************************)
(* The implementation-shaped state machine: two update sketches with lazy  *)
(* rebuilds, a stateful union with its gadget, a stateful intersection,    *)
(* one-shot set operations, and the contract of module Theta checked in    *)
(* every reachable state and on every step.                                *)
(*                                                                         *)
(* One abstract hash stands for a block of 16 real keys (K = 2 here,       *)
(* nominal size 32 there), so behaviours of this module replay directly.   *)
(***************************************************************************)
EXTENDS Theta, TLC, Json, IOUtils

CONSTANTS K, CAP, NH, D, EMIT
Hash == 1 .. NH
MAXT == NH + 1

VARIABLES u,      \* u[i]: update sketch i
          seen,   \* ghost: everything offered to sketch i since its reset
          g, ut,  \* union gadget and union threshold
          un,     \* ghost: contract accumulator of the union
          it,     \* intersection as implemented
          ic,     \* ghost: contract accumulator of the intersection
          res,    \* the last result (a compact sketch)
          ok,     \* the last result met its contract
          hist    \* the calls so far
vars == <<u, seen, g, ut, un, it, ic, res, ok, hist>>
view == <<u, seen, g, ut, un, it, ic, res, ok>>

Empty == Sk(TRUE, MAXT, {})

(* hash-table insertion with the lazy rebuild of the implementation        *)
Nth(S, n) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = n
Rebuild(s) == LET t == Nth(s.set, K) IN Sk(s.emp, t, Below(s.set, t))
Insert(s, h) ==
    LET s1 == [s EXCEPT !.emp = FALSE] IN
    IF h >= s.theta \/ h \in s.set THEN s1
    ELSE LET s2 == [s1 EXCEPT !.set = @ \cup {h}]
         IN IF Cardinality(s2.set) > CAP THEN Rebuild(s2) ELSE s2
RECURSIVE InsertAll(_, _)
InsertAll(s, S) == IF S = {} THEN s ELSE LET h == MinOf(S) IN InsertAll(Insert(s, h), S \ {h})

Init ==
    /\ u = [i \in {1, 2} |-> Empty] /\ seen = [i \in {1, 2} |-> {}]
    /\ g = Empty /\ ut = MAXT /\ un = UnionInit(K, MAXT)
    /\ it = InterInit(MAXT) /\ ic = InterInit(MAXT)
    /\ res = [def |-> FALSE, s |-> Empty] /\ ok = TRUE
    /\ hist = << <<"newu", 1>>, <<"newu", 2>>, <<"newn", 3>>, <<"newi", 4>> >>

Srcs == {1, 2} \cup (IF res.def THEN {5} ELSE {})
Val(h) == IF h = 5 THEN res.s ELSE u[h]
Log(c) == hist' = Append(hist, c)
Result(s, good) == res' = [def |-> TRUE, s |-> s] /\ ok' = good

Upd(i, v) ==
    /\ u' = [u EXCEPT ![i] = Insert(@, v)]
    /\ seen' = [seen EXCEPT ![i] = @ \cup {v}]
    /\ ok' = UpdateRel(u[i], u[i].theta, K, {v}, u'[i])
    /\ Log(<<"upd", i, v>>) /\ UNCHANGED <<g, ut, un, it, ic, res>>
Trim(i) ==
    /\ u' = [u EXCEPT ![i] = IF Cardinality(@.set) > K THEN Rebuild(@) ELSE @]
    /\ ok' = TrimRel(u[i], K, u'[i])
    /\ Log(<<"trim", i>>) /\ UNCHANGED <<seen, g, ut, un, it, ic, res>>
Reset(i) ==
    /\ u' = [u EXCEPT ![i] = Empty] /\ seen' = [seen EXCEPT ![i] = {}]
    /\ Log(<<"reset", i>>) /\ UNCHANGED <<g, ut, un, it, ic, res, ok>>

NUpd(h) ==
    LET s == Val(h) IN
    /\ IF s.emp THEN UNCHANGED <<g, ut>>
       ELSE LET t == Min2(ut, s.theta)
                g1 == InsertAll([g EXCEPT !.emp = FALSE], Below(s.set, t))
            IN g' = g1 /\ ut' = Min2(t, g1.theta)
    /\ un' = UnionStep(un, s)
    /\ Log(<<"nupd", 3, h>>) /\ UNCHANGED <<u, seen, it, ic, res, ok>>
UnionRes ==
    IF g.emp THEN Empty
    ELSE LET t == Min2(ut, g.theta) S == Below(g.set, t)
         IN IF Cardinality(S) > K THEN Rebuild(Sk(FALSE, t, S)) ELSE Sk(FALSE, t, S)
NRes ==
    /\ Result(UnionRes, UnionResult(un, UnionRes))
    /\ Log(<<"nres", 5, 3>>) /\ UNCHANGED <<u, seen, g, ut, un, it, ic>>
NReset ==
    /\ g' = Empty /\ ut' = MAXT /\ un' = UnionInit(K, MAXT)
    /\ Log(<<"nreset", 3>>) /\ UNCHANGED <<u, seen, it, ic, res, ok>>

(* the intersection as implemented: case analysis of Update                *)
IUpd(h) ==
    LET s == Val(h)
        e == it.emp \/ s.emp
        t == IF e THEN MAXT ELSE Min2(it.theta, s.theta) IN
    /\ it' = IF it.emp THEN it
             ELSE IF it.valid /\ it.set = {} THEN [it EXCEPT !.emp = e, !.theta = t]
             ELSE IF s.set = {} THEN [valid |-> TRUE, emp |-> e, theta |-> t, set |-> {}]
             ELSE IF ~it.valid THEN [valid |-> TRUE, emp |-> e, theta |-> t, set |-> s.set]
             ELSE LET m == {x \in s.set : x < t /\ x \in it.set}
                  IN [valid |-> TRUE, emp |-> e \/ (m = {} /\ t = MAXT), theta |-> t, set |-> m]
    /\ ic' = InterStep(ic, s, MAXT)
    /\ Log(<<"iupd", 4, h>>) /\ UNCHANGED <<u, seen, g, ut, un, res, ok>>
IRes ==
    LET r == Sk(it.emp, it.theta, it.set) IN
    /\ it.valid
    /\ Result(r, InterResult(ic, r))
    /\ Log(<<"ires", 5, 4>>) /\ UNCHANGED <<u, seen, g, ut, un, it, ic>>

ANB(a, b) ==
    LET x == Val(a) y == Val(b)
        t == Min2(x.theta, y.theta)
        S == Below(x.set \ y.set, t)
        r == IF x.emp \/ (x.set # {} /\ y.emp) THEN x ELSE Sk(S = {} /\ t = MAXT, t, S) IN
    /\ Result(r, ANotBRel(x, y, MAXT, r))
    /\ Log(<<"anb", 5, a, b>>) /\ UNCHANGED <<u, seen, g, ut, un, it, ic>>

Copy(op, h) ==
    /\ Result(Val(h), TRUE)
    /\ Log(<<op, 5, h>>) /\ UNCHANGED <<u, seen, g, ut, un, it, ic>>

Next ==
    /\ Len(hist) < D + 4
    /\ \/ \E i \in {1, 2}, v \in Hash : Upd(i, v)
       \/ \E i \in {1, 2} : Trim(i) \/ Reset(i)
       \/ \E h \in Srcs : NUpd(h) \/ IUpd(h)
       \/ NRes \/ NReset \/ IRes
       \/ \E a, b \in Srcs : ANB(a, b)
       \/ \E op \in {"compact", "ser"}, h \in {1, 2} : Copy(op, h)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == \A i \in {1, 2} : u[i].set \subseteq Hash /\ u[i].theta \in 1 .. MAXT
(* the sketch is exactly the seen hashes below its threshold               *)
Faithful == \A i \in {1, 2} : u[i].set = Below(seen[i], u[i].theta) /\ u[i].emp = (seen[i] = {})
ExactUntilFull == \A i \in {1, 2} : Cardinality(seen[i]) <= K => u[i].theta = MAXT
Bounded == \A i \in {1, 2} : Cardinality(u[i].set) <= CAP
Contract == ok
UnionAlways == UnionResult(un, UnionRes)
InterAlways == (it.valid <=> ic.valid) /\ (it.valid => InterResult(ic, Sk(it.emp, it.theta, it.set)))
ThetaOnlyFalls == [][\A i \in {1, 2} : u'[i].theta <= u[i].theta \/ u'[i].emp]_vars
(* the order of updates is invisible once the sketch is trimmed            *)
OrderBlind == Cardinality(seen[1]) > K /\ seen[1] = seen[2] =>
    LET a == IF Cardinality(u[1].set) > K THEN Rebuild(u[1]) ELSE u[1]
        b == IF Cardinality(u[2].set) > K THEN Rebuild(u[2]) ELSE u[2]
    IN Cardinality(a.set) >= K /\ Cardinality(b.set) >= K /\ (a.theta = b.theta => a.set = b.set)

Emit == (EMIT /\ Len(hist) = D + 4) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
