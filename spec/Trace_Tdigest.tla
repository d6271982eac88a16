--------------------------- MODULE Trace_Tdigest ---------------------------
EXTENDS Mon, Tdigest

VARIABLES l, store, grid
(* store: handle -> [s |-> digest, rs |-> read from an image]              *)

S(h) == store[h].s
Ok(e) == e.err = 0
Same(x, p) == p.k = x.k /\ p.n = x.n /\ p.mn = x.mn /\ p.mx = x.mx /\ p.cs = x.cs /\ p.buf = x.buf
Agree(x, p) == p.k = x.k /\ p.n = x.n /\ p.mn = x.mn /\ p.mx = x.mx
Adopt(x, p) == [x EXCEPT !.n = p.n, !.mn = p.mn, !.mx = p.mx, !.rev = p.rev, !.cs = p.cs, !.buf = p.buf]

All(pr, x, p) ==
    LET y == Adopt(x, p) IN
    C(pr, "count-and-extremes", Agree(x, p)) \cup
    C(pr, "weights", WeightOk(y)) \cup
    C(pr, "order-and-range", OrderOk(y)) \cup
    C(pr, "space", SpaceOk(y)) \cup
    C(pr, "ends-exact", EndsOk(y))
Step(h, x, p, name, cond) ==
    All("C17", x, p) \cup C("C17", name, cond) \cup
    (IF store[h].rs THEN All("C18", x, p) \cup C("C18", "restored:" \o name, cond) ELSE {})
Settles(e) == C("C17", "query-keeps-contents", Agree(S(e.h), e.post) /\ SettleOk(S(e.h), e.post.cs, e.post.buf, grid))

Judge(e) ==
  C("C30", "only-the-target-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C30", "can-be-printed", ~(e.op = "crash" /\ e.in = "show")) \cup
  C("C30", "arguments-unchanged", "inok" \notin DOMAIN e) \cup
  C("C17", "only-the-target-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C18", "independent", (e.op = "begin") \/ e.chg = <<>>) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         (IF e.in \in {"ser", "compat", "twin", "scribble", "hser", "chain"} THEN C("C18", "no-crash:" \o e.in, FALSE)
          ELSE C("C17", "no-crash:" \o e.in, FALSE))
    [] e.op = "newd" -> C("C17", "fresh", Ok(e) /\ Same(Fresh(e.k), e.post))
    [] e.op = "upd" ->
         Step(e.h, Offer(S(e.h), e.xs), e.post, "update", Ok(e) /\ UpdateOk(S(e.h), e.xs, e.post.cs, e.post.buf, grid))
    [] e.op = "bad" -> Step(e.h, S(e.h), e.post, "refuse", Ok(e) /\ e.acc = <<>> /\ Same(S(e.h), e.post))
    [] e.op = "merge" ->
         IF Refused(S(e.h), S(e.src))
         THEN Step(e.h, S(e.h), e.post, "merge-of-empty", Same(S(e.h), e.post))
         ELSE Step(e.h, Absorb(S(e.h), S(e.src)), e.post, "merge", Ok(e) /\ MergeOk(S(e.h), S(e.src), e.post.cs, e.post.buf, grid))
    [] e.op = "qrank" ->
         Settles(e) \cup
         (LET d == Adopt(S(e.h), e.post) IN
          C("C17", "rank", Ok(e) /\ \A i \in DOMAIN e.vs : LET r == RankRange(d, e.vs[i]) IN
                                       64 * r[1] - 1 <= e.r64[i] /\ e.r64[i] <= 64 * r[2] + 1) \cup
          C("C17", "rank-monotone", Ok(e) => \A i \in 1 .. Len(e.vs) - 1 : (e.vs[i] < e.vs[i + 1] => e.rr[i] <= e.rr[i + 1])
                                                                      /\ (e.vs[i] = e.vs[i + 1] => e.rr[i] = e.rr[i + 1])))
    [] e.op = "qquant" ->
         Settles(e) \cup
         (LET d == Adopt(S(e.h), e.post) L == Len(Settled(d))
              lo(r) == IF r[1] = 0 THEN e.mnr ELSE e.ms[r[1]]
              hi(r) == IF r[2] = L + 1 THEN e.mxr ELSE e.ms[r[2]]
          IN C("C17", "quantile", Ok(e) /\ Len(e.ms) = L /\ \A i \in DOMAIN e.js : LET r == QuantileRange(d, e.js[i]) IN
                                       lo(r) <= e.qs[i] /\ e.qs[i] <= hi(r)) \cup
             C("C17", "quantile-ends", Ok(e) => \A i \in DOMAIN e.js : (e.js[i] = 0 => e.qs[i] = e.mnr) /\ (e.js[i] = 2 * d.n => e.qs[i] = e.mxr)) \cup
             C("C17", "quantile-monotone", Ok(e) => \A i \in 1 .. Len(e.js) - 1 : e.js[i] <= e.js[i + 1] => e.qs[i] <= e.qs[i + 1]))
    [] e.op = "qcdf" ->
         Settles(e) \cup C("C17", "cdf-and-pmf", Ok(e) /\ Len(e.cdf) = Len(e.rk) + 1 /\ Len(e.pmf) = Len(e.cdf)
                 /\ \A i \in DOMAIN e.cdf : e.cdf[i] = e.pmf[i] /\ (i <= Len(e.rk) => e.cdf[i] = e.rk[i])
                 /\ e.cdf[Len(e.cdf)] = e.one)
    [] e.op = "qbad" ->
         C("C17", "refuse-queries", Ok(e) /\ e.acc = <<>>) \cup Settles(e)
    [] e.op = "acc" ->
         C("C17", "accuracy", Ok(e) /\ e.sn = e.n /\ \A i \in DOMAIN e.ps : Abs1(e.ps[i].e - e.ps[i].c) <= e.ps[i].tol)
    [] e.op = "hnew" -> C("C17", "no-error", Ok(e))
    [] e.op = "huge" -> C("C17", "large-counts", Ok(e) /\ e.n = e.want /\ e.sum = e.want /\ e.ext = e.wext /\ e.ends = e.wext
                                                 /\ e.order /\ e.nc <= e.room /\ e.rank = 1 /\ e.mean[1] = e.mean[2])
    [] e.op = "hser" -> C("C18", "large-image", Ok(e) /\ e.same)
    [] e.op = "settle" -> Settles(e)
    [] e.op = "ser" ->
         C("C18", "round-trip", Ok(e) /\ Same(S(e.src), e.post) /\ e.post.rev = S(e.src).rev) \cup
         C("C18", "declared-size", Ok(e) => e.size = e.len) \cup
         C("C18", "same-bytes-both-ways", Ok(e) => e.stable) \cup
         C("C18", "readers-agree", Ok(e) => e.both) \cup
         C("C18", "exact-consumption", Ok(e) => e.rest)
    [] e.op = "compat" ->
         C("C18", "compatibility-image", Ok(e) /\ Same([Fresh(e.k) EXCEPT !.n = Wt(e.cs), !.mn = e.mn, !.mx = e.mx, !.cs = e.cs], e.post)) \cup
         C("C18", "readers-agree", Ok(e) => e.both)
    [] e.op = "twin" -> C("C18", "continues-alike", Ok(e) /\ e.same)
    [] OTHER -> {"unknown-op"}

D(s, rs) == [s |-> s, rs |-> rs]
Into(e, x) == [store EXCEPT ![e.h].s = Adopt(x, e.post)]
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newd" /\ Ok(e) -> (e.h :> D(Adopt(Fresh(e.k), e.post), FALSE)) @@ store
    [] e.op = "upd" -> Into(e, Offer(S(e.h), e.xs))
    [] e.op \in {"qrank", "qquant", "qcdf", "qbad", "bad", "settle"} -> Into(e, S(e.h))
    [] e.op = "merge" -> IF Refused(S(e.h), S(e.src)) THEN Into(e, S(e.h)) ELSE Into(e, Absorb(S(e.h), S(e.src)))
    [] e.op = "ser" /\ Ok(e) -> (e.h :> D(Adopt(S(e.src), e.post), TRUE)) @@ store
    [] e.op = "compat" /\ Ok(e) ->
         (e.h :> D([Adopt(Fresh(e.k), e.post) EXCEPT !.nat = FALSE], TRUE)) @@ store
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ grid = FALSE /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ grid' = IF e.op = "begin" THEN e.grid ELSE grid
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store, grid>>
=============================================================================
