---------------------------- MODULE Trace_Tuple ----------------------------
EXTENDS Mon, Tuple

VARIABLES l, store, mx, kind

Abs(p) == LET S == ToSet(p.set)
          IN [emp |-> p.emp, theta |-> p.theta, set |-> S, m |-> [h \in S |-> p.m[ToString(h)]]]
TSk(s) == Sk(s.emp, s.theta, s.set)

WellFormed(p, m) ==
    /\ Len(p.set) = p.n /\ IsInj(p.set) /\ Cardinality(DOMAIN p.m) = p.n
    /\ \A i \in DOMAIN p.set : p.set[i] < p.theta /\ p.set[i] > 0
    /\ p.theta <= m
    /\ p.emp => p.n = 0
    /\ p.ord => p.srt
    /\ p.em = (p.theta < m /\ ~p.emp)

Eff(o) == IF o.s.emp THEN o.t0 ELSE o.s.theta
Upd(k, t0, sid, p) == [u |-> TRUE, k |-> k, t0 |-> t0, sid |-> sid, s |-> Abs(p), em |-> p.em]
Cmp(sid, p)        == [u |-> FALSE, k |-> 0, t0 |-> 0, sid |-> sid, s |-> Abs(p), em |-> p.em]

Ok(e) == e.err = 0
S(h) == store[h].s
Same(a, b) == SameSet(TSk(a), TSk(b)) /\ SameSums(a, b)

OutcomesT(pre, eff, ks, rets, post) ==
    /\ Len(rets) = Len(ks)
    /\ \A i \in DOMAIN ks :
         /\ rets[i] \in {0, 2, 3}
         /\ (rets[i] = 3) = (ks[i] = 0 /\ ks[i] < eff)
         /\ ks[i] >= eff => rets[i] = 2
         /\ rets[i] = 2 => ks[i] >= post.theta
    /\ \A h \in post.set \ pre.set : \E i \in DOMAIN ks : ks[i] = h

\* Bounds over k of the retained keys: ordered around k over theta, exact outside estimation mode, growing with k, and never past the whole.
SubsetBounds(e, p) ==
    \A i \in DOMAIN e.sub :
      LET b == e.sub[i] IN
      /\ b.floor <= b.lbs[3] /\ b.lbs[3] <= b.lbs[2] /\ b.lbs[2] <= b.lbs[1] /\ b.lbs[1] <= b.e
      /\ b.e <= b.ubs[1] /\ b.ubs[1] <= b.ubs[2] /\ b.ubs[2] <= b.ubs[3]
      /\ ~p.em => (b.lbs[3] = b.floor /\ b.ubs[3] = b.floor)
      /\ b.k >= p.n => (b.lbs = e.lbs /\ b.ubs = e.ubs)
      /\ \A j \in DOMAIN e.sub : e.sub[j].k <= b.k =>
           \A d \in 1 .. 3 : e.sub[j].lbs[d] <= b.lbs[d] /\ e.sub[j].ubs[d] <= b.ubs[d]

Judge(e) ==
  Isolated(e) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "newth" -> {}
    [] e.op = "crash" ->
         (CASE e.in \in {"newu", "upd", "updx", "trim", "reset", "compact", "filter", "fromth"} -> C("C04", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"newn", "nupd", "nreset", "nres", "newi", "iupd", "ires", "anb", "jac"} -> C("C05", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"ser", "badseed", "scribble", "strs"} -> C("C06", "no-crash:" \o e.in, FALSE)
            [] OTHER -> C("C28", "no-crash:" \o e.in, FALSE))
    [] e.op = "newu" ->
         C("C04", "fresh-sketch", Ok(e) /\ e.post.emp /\ e.post.n = 0 /\ e.post.theta = mx /\ e.post.sid = e.sidx)
    [] e.op = "upd" ->
         LET o == store[e.h] p == Abs(e.post) IN
         C("C04", "update-keys", Ok(e) /\ UpdateRel(TSk(o.s), Eff(o), o.k, ToSet(e.ks), TSk(p))) \cup
         C("C04", "update-outcomes", Ok(e) /\ OutcomesT(o.s, Eff(o), e.ks, e.rets, p)) \cup
         C("C04", "summary-fold", Ok(e) => FoldRel(kind, o.s, e.ks, e.vs, p)) \cup
         C("C04", "well-formed", WellFormed(e.post, mx)) \cup
         C("C04", "bounded", e.post.n <= 2 * o.k)
    [] e.op = "updx" -> C("C04", "empty-string-refused", e.ret = 1 /\ Abs(e.post) = S(e.h))
    [] e.op = "trim" ->
         C("C04", "trim", TrimRel(TSk(S(e.h)), store[e.h].k, TSk(Abs(e.post))) /\ SameSums(Abs(e.post), S(e.h)) /\ WellFormed(e.post, mx))
    [] e.op = "reset" -> C("C04", "reset", e.post.emp /\ e.post.n = 0 /\ e.post.theta = mx)
    [] e.op = "compact" ->
         C("C04", "compact", Ok(e) /\ Same(Abs(e.post), S(e.src)) /\ e.post.sid = store[e.src].sid
                             /\ WellFormed(e.post, mx) /\ (e.ordered => e.post.ord))
    [] e.op = "filter" ->
         C("C04", "filter", Ok(e) /\ FilterRel(S(e.src), store[e.src].em, LAMBDA s : SumSeq(s) % e.mod = e.rem, Abs(e.post))
                            /\ WellFormed(e.post, mx) /\ e.post.sid = store[e.src].sid)
    [] e.op = "fromth" ->
         LET p == Abs(e.post) IN
         C("C04", "from-theta", Ok(e) /\ SameSet(TSk(p), TSk(S(e.src))) /\ WellFormed(e.post, mx) /\ e.post.sid = store[e.src].sid
             /\ \A h \in p.set : p.m[h] = Offer(kind, Zero(kind), e.v))
    [] e.op = "newn" -> C("C05", "fresh-union", Ok(e) /\ e.post.emp /\ e.post.n = 0 /\ e.post.sid = e.sidx)
    [] e.op = "nupd" ->
         LET bad == ~S(e.src).emp /\ store[e.src].sid # store[e.h].sid IN
         C("C05", "union-refuses-other-seed", (e.err = 1) = bad) \cup
         C("C05", "union", IF bad THEN TUnionResult(store[e.h].u, Abs(e.post))
                           ELSE TUnionResult(TUnionStep(kind, store[e.h].u, S(e.src)), Abs(e.post))) \cup
         C("C05", "inputs-untouched", e.chg = <<>>) \cup
         C("C05", "well-formed", WellFormed(e.post, mx))
    [] e.op = "nreset" -> C("C05", "union-reset", e.post.emp /\ e.post.n = 0 /\ e.chg = <<>>)
    [] e.op = "nres" ->
         C("C05", "union-result", Ok(e) /\ TUnionResult(store[e.src].u, Abs(e.post)) /\ WellFormed(e.post, mx) /\ e.chg = <<>>
                                  /\ e.post.sid = store[e.src].sid /\ (e.ordered => e.post.ord))
    [] e.op = "newi" -> C("C05", "fresh-intersection", Ok(e) /\ e.post.n = -1)
    [] e.op = "iupd" ->
         LET i == store[e.h].i
             bad == ~i.emp /\ ~S(e.src).emp /\ store[e.src].sid # store[e.h].sid
             n == IF bad THEN i ELSE TInterStep(kind, i, S(e.src), mx) IN
         C("C05", "intersection-refuses-other-seed", (e.err = 1) = bad) \cup
         C("C05", "inputs-untouched", e.chg = <<>>) \cup
         C("C05", "intersection", IF ~n.valid THEN e.post.n = -1 ELSE TInterResult(n, Abs(e.post)) /\ WellFormed(e.post, mx))
    [] e.op = "ires" ->
         LET i == store[e.src].i IN
         C("C05", "intersection-undefined-before-update", ~i.valid => e.err = 1) \cup
         C("C05", "intersection-result", i.valid =>
             (Ok(e) /\ TInterResult(i, Abs(e.post)) /\ WellFormed(e.post, mx) /\ e.post.sid = store[e.src].sid /\ (e.ordered => e.post.ord)
                    /\ e.chg = <<>>))
    [] e.op = "anb" ->
         LET a == S(e.a) b == S(e.b)
             bada == ~a.emp /\ store[e.a].sid # e.sidx
             badb == ~a.emp /\ ~b.emp /\ store[e.b].sid # e.sidx IN
         C("C05", "a-not-b-refuses-other-seed", (a.set # {} /\ b.set # {}) => ((e.err = 1) = (bada \/ badb))) \cup
         C("C05", "a-not-b", Ok(e) => (ANotBRel(TSk(a), TSk(b), mx, TSk(Abs(e.post))) /\ SameSums(Abs(e.post), a)
                                        /\ WellFormed(e.post, mx) /\ (e.ordered => e.post.ord) /\ e.chg = <<>>)) \cup
         C("C05", "a-not-b-succeeds", (~bada /\ ((b.emp /\ a.set # {}) \/ store[e.b].sid = e.sidx)) => Ok(e))
    [] e.op = "jac" ->
         LET a == TSk(S(e.a)) b == TSk(S(e.b)) d == JaccardDen(a, b)
             bad == ~a.emp /\ ~b.emp /\ (store[e.a].sid # e.sidx \/ store[e.b].sid # e.sidx) IN
         C("C05", "jaccard-inputs-untouched", e.chg = <<>>) \cup
         C("C05", "jaccard-refuses-other-seed", (bad /\ ~e.same) => e.err = 1) \cup
         C("C05", "jaccard-succeeds", ~bad => (Ok(e) /\ e.eqerr = 0)) \cup
         C("C05", "jaccard-ordered", Ok(e) => (e.zero <= e.lb /\ e.lb <= e.est /\ e.est <= e.ub /\ e.ub <= e.one)) \cup
         C("C05", "jaccard-value", (Ok(e) /\ ~a.emp /\ ~b.emp /\ d > 0 /\ ~e.same) => (e.den = d /\ e.num = JaccardNum(a, b))) \cup
         C("C05", "similarity-tests", Ok(e) => (e.sim = <<TRUE, FALSE>> /\ e.dis = <<TRUE, FALSE>>)) \cup
         C("C05", "exactly-equal", (Ok(e) /\ ~bad /\ e.eqerr = 0) => (e.eq = SameSet(a, b)))
    [] e.op = "ser" ->
         C("C06", "round-trip", Ok(e) /\ Same(Abs(e.post), S(e.src)) /\ WellFormed(e.post, mx) /\ e.post.sid = store[e.src].sid) \cup
         C("C06", "order-flag", Ok(e) => e.post.ord = (e.srcord \/ e.post.n <= 1)) \cup
         C("C06", "deterministic-image", Ok(e) => e.stable)
    [] e.op = "strs" ->
         C("C06", "strings-limit", Ok(e) = (Len(e.given) <= 127)) \cup
         C("C06", "strings-image", Ok(e) => (e.out = e.given /\ e.dup = e.given /\ e.size = e.total /\ e.left = e.rest)) \cup
         C("C06", "strings-key", e.key = e.ref)
    [] e.op = "badseed" -> C("C06", "other-seed-refused", S(e.src).set = {} \/ e.err = 1)
    [] e.op = "cov" -> Coverage(e)
    [] e.op = "ref" -> Reference(e)
    [] e.op = "jcov" -> Similarity(e)
    [] e.op = "est" ->
         LET p == e.post IN
         C("C28", "estimate-defined", Ok(e)) \cup
         C("C28", "bounds-ordered", Ok(e) => (e.floor <= e.lbs[3] /\ e.lbs[3] <= e.lbs[2] /\ e.lbs[2] <= e.lbs[1] /\ e.lbs[1] <= e.e
                                /\ e.e <= e.ubs[1] /\ e.ubs[1] <= e.ubs[2] /\ e.ubs[2] <= e.ubs[3])) \cup
         C("C28", "estimate-formula", Ok(e) => e.e = e.formula) \cup
         C("C28", "exact-when-exact", (Ok(e) /\ ~p.em) => (e.lbs[3] = e.floor /\ e.e = e.floor /\ e.ubs[3] = e.floor)) \cup
         C("C28", "subset-bounds", Ok(e) => SubsetBounds(e, p))

After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newu" /\ Ok(e) -> (e.h :> Upd(e.k, e.t0, e.post.sid, e.post)) @@ store
    [] e.op \in {"upd", "updx", "trim", "reset"} -> [store EXCEPT ![e.h].s = Abs(e.post), ![e.h].em = e.post.em]
    [] e.op = "newth" /\ Ok(e) -> (e.h :> [u |-> FALSE, k |-> 0, t0 |-> 0, sid |-> e.post.sid, em |-> e.post.em,
                                      s |-> Abs(e.post)]) @@ store
    [] e.op \in {"compact", "filter", "fromth", "nres", "ires", "anb", "ser"} /\ Ok(e) -> (e.h :> Cmp(e.post.sid, e.post)) @@ store
    [] e.op = "newn" /\ Ok(e) -> (e.h :> [sid |-> e.sidx, u |-> TUnionInit(e.k, e.t0)]) @@ store
    [] e.op = "nupd" /\ Ok(e) -> [store EXCEPT ![e.h].u = TUnionStep(kind, @, S(e.src))]
    [] e.op = "nreset" -> [store EXCEPT ![e.h].u = TUnionInit(@.k, @.t0)]
    [] e.op = "newi" -> (e.h :> [sid |-> e.sidx, i |-> TInterInit(mx)]) @@ store
    [] e.op = "iupd" /\ Ok(e) -> [store EXCEPT ![e.h].i = TInterStep(kind, @, S(e.src), mx)]
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ mx = 0 /\ kind = "" /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ mx' = IF e.op = "begin" THEN e.max ELSE mx
     /\ kind' = IF e.op = "begin" THEN e.kind ELSE kind
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store, mx, kind>>
=============================================================================
