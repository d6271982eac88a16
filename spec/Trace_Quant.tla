----------------------------- MODULE Trace_Quant -----------------------------
EXTENDS Mon, Quant

VARIABLES l, store
(* store: handle -> [t |-> "sk", s |-> sketch, rs |-> restored from image] *)
(*               or [t |-> "view"]                                         *)

S(h) == store[h].s
Ok(e) == e.err = 0
PropOf(t) == IF t = "kll" THEN "C13" ELSE "C14"

(* the state after a step that should lead to the coin-independent part x  *)
Agree(x, p) == p.t = x.t /\ p.k = x.k /\ p.m = x.m /\ p.n = x.n /\ p.mn = x.mn /\ p.mx = x.mx
               /\ (x.t = "kll" => p.pk = x.pk)
Adopt(x, p) == [x EXCEPT !.n = p.n, !.lv = p.lv, !.mn = p.mn, !.mx = p.mx]
Sound(s, p) ==
    /\ Shaped(p.lv) /\ WeightOk(s, p.lv) /\ InRange(s, p.lv)
    /\ p.nr = Retained(p.lv)
Modest(s, p) == SpaceOk(s, p.lv) /\ (Len(p.lv) > 1 => p.est)
Exact(s, p) == ExactOk(s, p.lv) /\ AccurateEndOk(s, p.lv)

All(pr, x, p) ==
    C(pr, "count-and-extremes", Agree(x, p)) \cup
    C(pr, "weights-and-items", Sound(x, p)) \cup
    C(pr, "space", Modest(x, p)) \cup
    C(pr, "exact-part", Exact(x, p))

Full(s) == s.n > 0 /\ WeightOk(s, s.lv)
Same(s, p) == Agree(s, p) /\ p.lv = s.lv

Step(h, x, p, name, cond) ==   \* an operation on a sketch
    LET pr == PropOf(S(h).t) IN
    All(pr, x, p) \cup C(pr, name, cond) \cup
    (IF store[h].rs THEN All("C16", x, p) \cup C("C16", "restored:" \o name, cond) ELSE {})

(* an answer about sketch h; one read back answers like the original       *)
Q(h, name, cond) == C("C15", name, cond) \cup (IF store[h].rs THEN C("C16", "restored:" \o name, cond) ELSE {})

Judge(e) ==
  Isolated(e) \cup
  C("C15", "nothing-else-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C16", "independent", (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C13", "sources-untouched", e.op = "merge" => e.chg = <<>>) \cup
  C("C14", "sources-untouched", e.op = "merge" => e.chg = <<>>) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         (CASE e.in \in {"newq", "upd", "updn", "merge", "reset", "acc", "huge", "hnew", "wide"} ->
                 C("C13", "no-crash:" \o e.in, FALSE) \cup C("C14", "no-crash:" \o e.in, FALSE)
                 \cup (IF e.in = "wide" THEN {} ELSE C("C16", "no-crash:" \o e.in, FALSE))
            [] e.in \in {"ser", "hser", "scribble"} -> C("C16", "no-crash:" \o e.in, FALSE)
            [] OTHER -> C("C15", "no-crash:" \o e.in, FALSE))
    [] e.op = "newq" -> C(PropOf(e.t), "fresh", Ok(e) /\ Same(Fresh(e.t, e.k, e.m), e.post) /\ ~e.post.est)
    [] e.op = "reset" -> Step(e.h, Fresh(S(e.h).t, S(e.h).k, S(e.h).m), e.post, "reset", Ok(e) /\ e.post.lv = <<>> /\ ~e.post.est)
    [] e.op = "upd" -> Step(e.h, Offer(S(e.h), <<e.x>>), e.post, "update", Ok(e) /\ UpdateOk(S(e.h), e.x, e.post.lv))
    [] e.op = "updn" ->
         Step(e.h, Offer(S(e.h), e.xs), e.post, "updates",
              Ok(e) /\ Items(e.post.lv) \subseteq Items(S(e.h).lv) \cup ToSet(e.xs)
              /\ (e.xs = <<>> => e.post.lv = S(e.h).lv))
    [] e.op = "merge" ->
         IF Refused(S(e.h), S(e.src))
         THEN C("C14", "refuse-mode", ~Ok(e) /\ Same(S(e.h), e.post))
         ELSE Step(e.h, Absorb(S(e.h), S(e.src)), e.post, "merge", Ok(e) /\ MergeOk(S(e.h), S(e.src), e.post.lv))
    [] e.op = "acc" ->
         C(PropOf(e.t), "accuracy", Ok(e) /\ e.sn = e.n /\
              \A i \in DOMAIN e.ps : Abs1(e.ps[i].e - e.ps[i].c) <= e.ps[i].tol)
    [] e.op = "hnew" -> C("C13", "no-error", Ok(e)) \cup C("C14", "no-error", Ok(e))
    [] e.op = "huge" ->
         LET good == Ok(e) /\ e.n = e.want /\ e.sum = e.want /\ e.nr = e.cnt /\ e.ext = e.wext /\ e.rank = 1
         IN C("C13", "large-counts", good) \cup C("C14", "large-counts", good)
    [] e.op = "wide" ->
         C("C13", "large-k", Ok(e) /\ e.sum = e.n /\ (e.n <= e.k => (e.nr = e.n /\ ~e.est)) /\ e.nr <= 3 * e.k + 200) \cup {}
    [] e.op = "hser" ->
         C("C16", "large-image", Ok(e) /\ e.same /\ e.rn = e.n /\ e.n = e.want /\ e.rsum = e.sum /\ e.sum = e.want
                                 /\ e.rnr = e.nr /\ e.ext = e.rext /\ e.ext = e.wext /\ e.rrank = 1)
    [] e.op = "ser" ->
         C("C16", "round-trip", Ok(e) /\ Same(S(e.src), e.post) /\ Sound(S(e.src), e.post)) \cup
         C("C16", "declared-size", Ok(e) => e.size = e.len) \cup
         C("C16", "deterministic-image", Ok(e) => e.stable)
    [] e.op = "qrank" ->
         Q(e.h, "rank", Full(S(e.h)) => (Ok(e) /\ LET v == View(S(e.h)) IN
              \A i \in DOMAIN e.ys : e.rs[i] = RankIn(v, e.ys[i], e.incl))) \cup
         C("C15", "query-changes-nothing", Same(S(e.h), e.post))
    [] e.op = "qquant" ->
         Q(e.h, "quantile", Full(S(e.h)) => (Ok(e) /\ LET v == View(S(e.h)) IN
              \A i \in DOMAIN e.js : e.qs[i] = QuantileIn(v, e.js[i], e.incl))) \cup
         C("C15", "query-changes-nothing", Same(S(e.h), e.post))
    [] e.op = "qview" ->
         Q(e.h, "view-queries", Full(S(e.h)) => (Ok(e) /\ LET v == View(S(e.h)) IN
              /\ \A i \in DOMAIN e.js : e.qs[i] = QuantileIn(v, e.js[i], e.incl)
              /\ \A i \in DOMAIN e.ys : e.rs[i] = RankIn(v, e.ys[i], e.incl))) \cup
         C("C15", "query-changes-nothing", Same(S(e.h), e.post))
    [] e.op = "qcdf" ->
         Q(e.h, "cdf", Full(S(e.h)) => (Ok(e) /\ LET v == View(S(e.h)) m == Len(e.ys) IN
              /\ Len(e.cdf) = m + 1 /\ e.cdf[m + 1] = S(e.h).n
              /\ \A i \in DOMAIN e.ys : e.cdf[i] = RankIn(v, e.ys[i], e.incl))) \cup
         Q(e.h, "pmf", Full(S(e.h)) => (Ok(e) /\ LET v == View(S(e.h)) m == Len(e.ys) IN
              /\ Len(e.pmf) = m + 1
              /\ \A i \in 1 .. m + 1 : e.pmf[i] = (IF i > m THEN S(e.h).n ELSE RankIn(v, e.ys[i], e.incl))
                                                 - (IF i = 1 THEN 0 ELSE RankIn(v, e.ys[i - 1], e.incl)))) \cup
         C("C15", "query-changes-nothing", Same(S(e.h), e.post))
    [] e.op = "view" ->
         Q(e.src, "sorted-view", Full(S(e.src)) => (Ok(e) /\ ListingOk(View(S(e.src)), e.post.xs, e.post.cw)))
    [] e.op = "qpart" ->
         Q(e.h, "boundaries", Full(S(e.h)) => (Ok(e) /\ BoundariesOk(S(e.h), e.np, e.incl, e.bs))) \cup
         C("C15", "query-changes-nothing", Same(S(e.h), e.post))
    [] e.op = "qbound" ->
         Q(e.h, "bounds", Ok(e) /\ e.rs = e.fs /\ \A i \in 1 .. 6 : e.rs[i] <= e.rs[i + 1] /\ e.qs[i] <= e.qs[i + 1]) \cup
         C("C15", "query-changes-nothing", Same(S(e.h), e.post))
    [] e.op = "qbad" ->
         C("C15", "refuse", Ok(e) /\ e.acc = <<>>) \cup
         C("C15", "query-changes-nothing", Same(S(e.h), e.post))

Sk(s, rs) == [t |-> "sk", s |-> s, rs |-> rs]
Into(e, x) == [store EXCEPT ![e.h].s = Adopt(x, e.post)]
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newq" /\ Ok(e) -> (e.h :> Sk(Adopt(Fresh(e.t, e.k, e.m), e.post), FALSE)) @@ store
    [] e.op = "ser" /\ Ok(e) -> (e.h :> Sk(Adopt(S(e.src), e.post), TRUE)) @@ store
    [] e.op = "view" /\ Ok(e) -> (e.h :> [t |-> "view"]) @@ store
    [] e.op = "reset" -> [store EXCEPT ![e.h].s = Adopt(Fresh(S(e.h).t, S(e.h).k, S(e.h).m), e.post)]
    [] e.op = "upd" -> Into(e, Offer(S(e.h), <<e.x>>))
    [] e.op = "updn" -> Into(e, Offer(S(e.h), e.xs))
    [] e.op = "merge" -> IF Refused(S(e.h), S(e.src)) THEN Into(e, S(e.h)) ELSE Into(e, Absorb(S(e.h), S(e.src)))
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store>>
=============================================================================
