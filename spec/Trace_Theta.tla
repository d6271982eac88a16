---------------------------- MODULE Trace_Theta ----------------------------
EXTENDS Mon, Theta

VARIABLES l, store, mx

Abs(p) == Sk(p.emp, p.theta, ToSet(p.set))

(* What every sketch the API hands out must satisfy on its own.            *)
WellFormed(p, m) ==
    /\ Len(p.set) = p.n /\ IsInj(p.set)
    /\ \A i \in DOMAIN p.set : p.set[i] < p.theta /\ p.set[i] > 0
    /\ p.theta <= m
    /\ p.emp => p.n = 0
    /\ p.ord => p.srt
    /\ p.em = (p.theta < m /\ ~p.emp)

Eff(o) == IF o.s.emp THEN o.t0 ELSE o.s.theta
(* store entries *)
Upd(k, t0, sid, p) == [t |-> "sk", u |-> TRUE, k |-> k, t0 |-> t0, sid |-> sid, s |-> Abs(p)]
Cmp(sid, p)        == [t |-> "sk", u |-> FALSE, k |-> 0, t0 |-> 0, sid |-> sid, s |-> Abs(p)]

Ok(e) == e.err = 0
S(h) == store[h].s

Judge(e) ==
  Isolated(e) \cup
  CASE e.op = "begin" -> {}
    [] e.op = "drop" -> {}
    [] e.op \in {"scribble", "show"} -> {}
    [] e.op = "crash" ->
         (CASE e.in \in {"newu", "upd", "updx", "trim", "reset", "compact"} -> C("C01", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"newn", "nupd", "nreset", "nres", "newi", "iupd", "ires", "anb", "jac"} -> C("C02", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"ser", "badseed", "scribble", "many"} -> C("C03", "no-crash:" \o e.in, FALSE)
            [] OTHER -> C("C28", "no-crash:" \o e.in, FALSE))
    [] e.op = "newu" ->
         C("C01", "fresh-sketch", Ok(e) /\ e.post.emp /\ e.post.n = 0 /\ e.post.theta = mx /\ e.post.sid = e.sidx
                                 /\ e.got = <<e.k, e.rf>>)
    [] e.op = "upd" ->
         LET o == store[e.h] p == Abs(e.post) IN
         C("C01", "update-relation", Ok(e) /\ UpdateRel(o.s, Eff(o), o.k, ToSet(e.ks), p)) \cup
         C("C01", "update-outcomes", Ok(e) /\ OutcomesRel(o.s, Eff(o), e.ks, e.rets, p)) \cup
         C("C01", "update-single-outcome",
              Len(e.ks) = 1 => e.rets[1] = UpdateOutcome(o.s, Eff(o), e.ks[1])) \cup
         C("C01", "well-formed", WellFormed(e.post, mx)) \cup
         C("C01", "bounded", e.post.n <= 2 * o.k)
    [] e.op = "updx" ->
         C("C01", "empty-string-refused", e.ret = 1 /\ Abs(e.post) = S(e.h))
    [] e.op = "trim" ->
         C("C01", "trim", TrimRel(S(e.h), store[e.h].k, Abs(e.post)) /\ WellFormed(e.post, mx))
    [] e.op = "reset" ->
         C("C01", "reset", e.post.emp /\ e.post.n = 0 /\ e.post.theta = mx)
    [] e.op = "compact" ->
         C("C01", "compact", Ok(e) /\ SameSet(Abs(e.post), S(e.src)) /\ e.post.sid = store[e.src].sid
                             /\ WellFormed(e.post, mx) /\ (e.ordered => e.post.ord))
    [] e.op = "newn" -> C("C02", "fresh-union", Ok(e) /\ e.post.emp /\ e.post.n = 0 /\ e.post.sid = e.sidx)
    [] e.op = "nupd" ->
         LET bad == ~S(e.src).emp /\ store[e.src].sid # store[e.h].sid IN
         C("C02", "union-refuses-other-seed", (e.err = 1) = bad) \cup
         C("C02", "union", IF bad THEN UnionResult(store[e.h].u, Abs(e.post))
                           ELSE UnionResult(UnionStep(store[e.h].u, S(e.src)), Abs(e.post))) \cup
         C("C02", "well-formed", WellFormed(e.post, mx))
    [] e.op = "nreset" -> C("C02", "union-reset", e.post.emp /\ e.post.n = 0)
    [] e.op = "nres" ->
         C("C02", "union-result", Ok(e) /\ UnionResult(store[e.src].u, Abs(e.post)) /\ WellFormed(e.post, mx)
                                  /\ e.post.sid = store[e.src].sid /\ (e.ordered => e.post.ord))
    [] e.op = "newi" -> C("C02", "fresh-intersection", Ok(e) /\ e.post.n = -1)
    [] e.op = "iupd" ->
         LET i == store[e.h].i
             bad == ~i.emp /\ ~S(e.src).emp /\ store[e.src].sid # store[e.h].sid
             n == IF bad THEN i ELSE InterStep(i, S(e.src), mx) IN
         C("C02", "intersection-refuses-other-seed", (e.err = 1) = bad) \cup
         C("C02", "intersection", IF ~n.valid THEN e.post.n = -1 ELSE InterResult(n, Abs(e.post)) /\ WellFormed(e.post, mx))
    [] e.op = "ires" ->
         LET i == store[e.src].i IN
         C("C02", "intersection-undefined-before-update", ~i.valid => e.err = 1) \cup
         C("C02", "intersection-result", i.valid =>
             (Ok(e) /\ InterResult(i, Abs(e.post)) /\ WellFormed(e.post, mx) /\ e.post.sid = store[e.src].sid /\ (e.ordered => e.post.ord)))
    [] e.op = "anb" ->
         LET a == S(e.a) b == S(e.b)
             bada == ~a.emp /\ store[e.a].sid # e.sidx
             badb == ~a.emp /\ ~b.emp /\ store[e.b].sid # e.sidx IN
         C("C02", "a-not-b-refuses-other-seed", (a.set # {} /\ b.set # {}) => ((e.err = 1) = (bada \/ badb))) \cup
         C("C02", "a-not-b", Ok(e) => (ANotBRel(a, b, mx, Abs(e.post)) /\ WellFormed(e.post, mx) /\ (e.ordered => e.post.ord))) \cup
         C("C02", "a-not-b-succeeds", (~bada /\ ((b.emp /\ a.set # {}) \/ store[e.b].sid = e.sidx)) => Ok(e))
    [] e.op = "jac" ->
         LET a == S(e.a) b == S(e.b) d == JaccardDen(a, b)
             bad == ~a.emp /\ ~b.emp /\ (store[e.a].sid # e.sidx \/ store[e.b].sid # e.sidx) IN
         C("C02", "jaccard-refuses-other-seed", (bad /\ ~e.same) => e.err = 1) \cup
         C("C02", "jaccard-succeeds", ~bad => (Ok(e) /\ e.eqerr = 0)) \cup
         C("C02", "jaccard-ordered", Ok(e) => (e.zero <= e.lb /\ e.lb <= e.est /\ e.est <= e.ub /\ e.ub <= e.one)) \cup
         C("C02", "jaccard-value", (Ok(e) /\ ~a.emp /\ ~b.emp /\ d > 0 /\ ~e.same) => (e.den = d /\ e.num = JaccardNum(a, b))) \cup
         C("C02", "similarity-tests", Ok(e) => (e.sim = <<TRUE, FALSE>> /\ e.dis = <<TRUE, FALSE>>)) \cup
         C("C02", "jaccard-empty", (Ok(e) /\ (a.emp \/ b.emp)) =>
              (IF a.emp /\ b.emp THEN e.est = e.one /\ e.lb = e.one ELSE e.est = e.zero /\ e.ub = e.zero)) \cup
         C("C02", "jaccard-exact", (Ok(e) /\ a.theta = mx /\ b.theta = mx) => (e.lb = e.est /\ e.est = e.ub)) \cup
         C("C02", "exactly-equal", (Ok(e) /\ ~bad /\ e.eqerr = 0) => (e.eq = SameSet(a, b)))
    [] e.op = "ser" ->
         C("C03", "round-trip", Ok(e) /\ SameSet(Abs(e.post), S(e.src)) /\ WellFormed(e.post, mx) /\ e.post.sid = store[e.src].sid) \cup
         C("C03", "order-flag", Ok(e) => e.post.ord = (e.srcord \/ e.post.n = 1 \/ e.post.emp)) \cup
         C("C03", "declared-size", Ok(e) => e.declared = e.actual) \cup
         C("C03", "maximum-size", Ok(e) => e.actual <= e.most) \cup
         C("C03", "deterministic-image", Ok(e) => e.stable)
    [] e.op = "many" -> C("C03", "round-trip-many", Ok(e) /\ e.kept = e.n /\ \A i \in DOMAIN e.got : e.got[i] = e.want)
    [] e.op = "badseed" -> C("C03", "other-seed-refused", S(e.src).emp \/ e.err = 1)
    [] e.op = "cov" -> Coverage(e)
    [] e.op = "ref" -> Reference(e)
    [] e.op = "jcov" -> Similarity(e)
    [] e.op = "est" ->
         LET p == e.post IN
         C("C28", "estimate-defined", Ok(e)) \cup
         C("C28", "bounds-ordered", Ok(e) => (e.floor <= e.lbs[3] /\ e.lbs[3] <= e.lbs[2] /\ e.lbs[2] <= e.lbs[1] /\ e.lbs[1] <= e.e
                                /\ e.e <= e.ubs[1] /\ e.ubs[1] <= e.ubs[2] /\ e.ubs[2] <= e.ubs[3])) \cup
         C("C28", "estimate-formula", Ok(e) => e.e = e.formula) \cup
         C("C28", "exact-when-exact", (Ok(e) /\ ~p.em) => (e.lbs[3] = e.floor /\ e.e = e.floor /\ e.ubs[3] = e.floor))

(* The state after the event, as the implementation reported it.           *)
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newu" /\ Ok(e) -> (e.h :> Upd(e.k, e.t0, e.post.sid, e.post)) @@ store
    [] e.op \in {"upd", "updx", "trim", "reset"} -> [store EXCEPT ![e.h].s = Abs(e.post)]
    [] e.op \in {"compact", "nres", "ires", "anb", "ser"} /\ Ok(e) -> (e.h :> Cmp(e.post.sid, e.post)) @@ store
    [] e.op = "newn" /\ Ok(e) -> (e.h :> [t |-> "un", sid |-> e.sidx, u |-> UnionInit(e.k, e.t0)]) @@ store
    [] e.op = "nupd" /\ Ok(e) -> [store EXCEPT ![e.h].u = UnionStep(@, S(e.src))]
    [] e.op = "nreset" -> [store EXCEPT ![e.h].u = UnionInit(@.k, @.t0)]
    [] e.op = "newi" -> (e.h :> [t |-> "in", sid |-> e.sidx, i |-> InterInit(mx)]) @@ store
    [] e.op = "iupd" /\ Ok(e) -> [store EXCEPT ![e.h].i = InterStep(@, S(e.src), mx)]
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ mx = 0 /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ mx' = IF e.op = "begin" THEN e.max ELSE mx
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store, mx>>
=============================================================================
