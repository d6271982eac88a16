-------------------------------- MODULE Mon --------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is a concatenation of *)
(* scenarios recorded from the Go library; `l` is the position in it.  The *)
(* family module judges every event with the operators of its              *)
(* specification: the set of clauses the event breaks is printed, and the  *)
(* state the implementation reported is adopted, so that the rest of the   *)
(* trace is judged as well.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
MaxReports == 200

(* A clause of property p: evaluated only when p is in focus.              *)
C(p, name, cond) == IF (Focus = p \/ Focus = "ALL") /\ ~cond THEN {name} ELSE {}

ToSet(s) == {s[i] : i \in DOMAIN s}
IsInj(s) == Cardinality(ToSet(s)) = Len(s)
SumSeq(s) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE f(i-1) + s[i] IN f(Len(s))

Report(l, F) ==
    IF F = {} THEN TRUE
    ELSE LET n == TLCGet(1) + 1
         IN TLCSet(1, n) /\ (IF n <= MaxReports THEN PrintT(<<"FAIL", l, F>>) ELSE TRUE)

(* Calls change the object they are made on, and queries not even that.    *)
Queries == {"est", "qrank", "qquant", "qcdf", "qpart", "qbound", "qview", "qbad", "q", "fi", "query", "noitem", "used", "samples"}
Isolated(e) ==
    C("C30", "only-the-target-changes:" \o e.op, e.op \in {"begin", "twin"} \/ e.chg = <<>>) \cup
    C("C30", "queries-change-nothing:" \o e.op, (e.op \in Queries /\ e.h # 0) => e.still) \cup
    C("C30", "can-be-printed", ~(e.op = "crash" /\ e.in = "show")) \cup
    C("C30", "arguments-unchanged", "inok" \notin DOMAIN e)

(* Of T = 400 experiments, how many have the truth between the bounds of   *)
(* 1, 2, 3 deviations: 68.3, 95.5, 99.7 per cent of them, less at most     *)
(* seven deviations of that count.  And the bounds are not idle.           *)
Covers(e) == e.T = 400 /\ e.cov[1] >= 208 /\ e.cov[2] >= 352 /\ e.cov[3] >= 391
Coverage(e) ==
    C("C28", "coverage-defined", e.err = 0) \cup
    C("C28", "advertised-confidence", e.err = 0 => Covers(e)) \cup
    C("C28", "mean-is-truth", e.err = 0 => (e.mlo <= e.mean /\ e.mean <= e.mhi)) \cup
    C("C28", "advertised-error", e.err = 0 => \A k \in 1 .. 3 : e.wid[k] <= e.wmax[k]) \cup
    C("C28", "sides-match-the-error", e.err = 0 => \A k \in DOMAIN e.sides :
        LET d == e.sides[k] IN d.dlmin <= d.dl /\ d.dl <= d.dlmax /\ d.dumin <= d.du /\ d.du <= d.dumax)
(* Answers against the range around a value that is computed independently *)
(* from the probabilities it stands for.                                    *)
Reference(e) ==
    C("C28", "reference-defined", e.err = 0) \cup
    C("C28", "agrees-with-the-reference:" \o e.what,
        e.err = 0 => \A i \in DOMAIN e.xs : e.xs[i].lo <= e.xs[i].got /\ e.xs[i].got <= e.xs[i].hi)
(* The same for the similarity of two sets: two deviations are meant.      *)
Similarity(e) ==
    C("C28", "similarity-defined", e.err = 0) \cup
    C("C28", "similarity-confidence", e.err = 0 => (e.T = 400 /\ (e.few \/ e.cov >= 352))) \cup
    C("C28", "similarity-mean", e.err = 0 => (e.mlo <= e.mean /\ e.mean <= e.mhi)) \cup
    C("C28", "similarity-error", e.err = 0 => e.wid <= e.wmax)

Count(i) == TLCSet(i, TLCGet(i) + 1)

Accepted == LET d == TLCGet("stats").diameter
            IN /\ PrintT(<<"CONSUMED", d - 1, Len(Trace), TLCGet(1)>>)
               /\ d - 1 = Len(Trace)
=============================================================================
