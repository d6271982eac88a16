------------------------------- MODULE Theta -------------------------------
(***************************************************************************)
(* Theta sketches and their set operations.                                *)
(*                                                                         *)
(* An abstract sketch is [emp, theta, set]: "no value was ever offered",   *)
(* the sampling threshold, and the retained hashes.  Hashes and thresholds *)
(* are numbers that only matter through comparisons; MAXT is the threshold *)
(* 1.0.  The operators below are the contract; module MC_Theta gives the   *)
(* implementation-shaped state machine (lazy rebuilds at CAP entries) and  *)
(* checks it against the contract, and module Trace_Theta checks recorded  *)
(* executions of the Go code against the same operators.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sk(e, t, S)  == [emp |-> e, theta |-> t, set |-> S]
Below(S, t)  == {x \in S : x < t}
Min2(a, b)   == IF a <= b THEN a ELSE b
MinOf(S)     == CHOOSE x \in S : \A y \in S : x <= y

(* s retains exactly the n smallest members of U, with the threshold at    *)
(* the next one.                                                           *)
KeepsSmallest(U, n, s) ==
    /\ s.set \subseteq U
    /\ Cardinality(s.set) = n
    /\ s.theta \in U
    /\ \A x \in U : (x \in s.set) <=> (x < s.theta)

----------------------------------------------------------------------------
(* Update sketch.  eff is the threshold in force before the call (the      *)
(* starting threshold while the sketch is empty), H the hashes offered.    *)
UpdateRel(pre, eff, k, H, post) ==
    LET all == (pre.set \cup H) \ {0} IN       (* hash 0 is never retained *)
    /\ post.emp = (pre.emp /\ H = {})
    /\ IF post.emp
       THEN post.set = {}
       ELSE /\ post.theta <= eff
            /\ post.set = Below(all, post.theta)
            /\ post.theta < eff =>
                  /\ post.theta \in all
                  /\ Cardinality(post.set) >= k

TrimRel(pre, k, post) ==
    IF Cardinality(pre.set) > k
    THEN KeepsSmallest(pre.set, k, post) /\ ~post.emp
    ELSE post = pre

(* The outcome a single update must report.  0 inserted, 1 duplicate,      *)
(* 2 above the threshold, 3 the reserved hash.                             *)
UpdateOutcome(pre, eff, h) ==
    IF h >= eff THEN 2 ELSE IF h = 0 THEN 3 ELSE IF h \in pre.set THEN 1 ELSE 0

(* The outcomes of a block of updates, given only the states around it.    *)
OutcomesRel(pre, eff, ks, rets, post) ==
    /\ Len(rets) = Len(ks)
    /\ \A i \in DOMAIN ks :
         /\ rets[i] \in {0, 1, 2, 3}
         /\ (rets[i] = 3) = (ks[i] = 0 /\ ks[i] < eff)
         /\ ks[i] >= eff => rets[i] = 2
         /\ rets[i] = 2 => ks[i] >= post.theta
         /\ (rets[i] = 0 /\ ks[i] \in post.set) => ks[i] \notin pre.set
         /\ ks[i] \in pre.set => rets[i] # 0
         /\ ks[i] \in post.set => rets[i] \in {0, 1}
    /\ LET ins == {i \in DOMAIN ks : rets[i] = 0}
       IN  (* nothing is inserted twice, everything new and kept is inserted once *)
           /\ Cardinality({ks[i] : i \in ins}) = Cardinality(ins)
           /\ post.set \ pre.set \subseteq {ks[i] : i \in ins}

----------------------------------------------------------------------------
(* Union accumulator: [k, t0, emp, tmin, U].                               *)
UnionInit(k, t0) == [k |-> k, t0 |-> t0, emp |-> TRUE, tmin |-> t0, U |-> {}]
UnionStep(u, s)  ==
    IF s.emp THEN u
    ELSE LET t == Min2(u.tmin, s.theta)
         IN [u EXCEPT !.emp = FALSE, !.tmin = t, !.U = Below(u.U \cup s.set, t)]
UnionResult(u, r) ==
    IF u.emp THEN r.emp /\ r.set = {}
    ELSE /\ ~r.emp
         /\ IF Cardinality(u.U) <= u.k
            THEN r.theta = u.tmin /\ r.set = u.U
            ELSE KeepsSmallest(u.U, u.k, r)

(* Intersection accumulator: [valid, emp, theta, set].                     *)
InterInit(mx) == [valid |-> FALSE, emp |-> FALSE, theta |-> mx, set |-> {}]
InterStep(i, s, mx) ==
    IF i.emp THEN i
    ELSE IF s.emp THEN [valid |-> TRUE, emp |-> TRUE, theta |-> mx, set |-> {}]
    ELSE LET t == Min2(i.theta, s.theta)
             S == Below(IF i.valid THEN i.set \cap s.set ELSE s.set, t)
         IN [valid |-> TRUE, emp |-> (S = {} /\ t = mx), theta |-> t, set |-> S]
InterResult(i, r) ==
    /\ r.emp = i.emp
    /\ r.set = i.set
    /\ r.emp \/ r.theta = i.theta

(* A and not B.                                                            *)
ANotBRel(a, b, mx, r) ==
    IF a.emp THEN r.emp /\ r.set = {}
    ELSE IF b.emp THEN r.set = a.set /\ ~r.emp
                       /\ (r.theta = a.theta \/ (a.set = {} /\ r.theta = Min2(a.theta, b.theta)))
    ELSE LET t == Min2(a.theta, b.theta)
             S == Below(a.set \ b.set, t)
         IN /\ r.set = S
            /\ r.emp = (S = {} /\ t = mx)
            /\ r.emp \/ r.theta = t

(* Jaccard: numerator and denominator over the common sample.              *)
JaccardNum(a, b) == Cardinality(Below(a.set \cap b.set, Min2(a.theta, b.theta)))
JaccardDen(a, b) == Cardinality(Below(a.set \cup b.set, Min2(a.theta, b.theta)))

SameSet(a, b) == a.emp = b.emp /\ a.set = b.set /\ (a.emp \/ a.theta = b.theta)
=============================================================================
