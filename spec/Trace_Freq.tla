----------------------------- MODULE Trace_Freq -----------------------------
EXTENDS Mon, Freq

VARIABLES l, store
(* store: handle -> [s |-> sketch, rs |-> read from an image]              *)

S(h) == store[h].s
Ok(e) == e.err = 0
Adopt(x, p) == [x EXCEPT !.w = p.w, !.off = p.off, !.cs = p.cs]
Pairs(xs) == [i \in DOMAIN xs |-> <<xs[i][1], xs[i][2]>>]

(* A projection is consistent in itself.                                   *)
ShapeOk(x, p) ==
    /\ p.cap = CapOf(x.lg) /\ p.cur <= p.cap /\ p.act <= p.cur /\ p.act = Act(p.cs)
    /\ p.empty = (p.w = 0) /\ p.off >= 0 /\ \A i \in DOMAIN p.cs : p.cs[i] >= 0
All(pr, x, p) ==
    LET y == Adopt(x, p) IN
    C(pr, "stream-weight", p.w = x.w) \cup
    C(pr, "capacity-and-emptiness", ShapeOk(x, p)) \cup
    C(pr, "bounds", BoundsOk(y)) \cup
    C(pr, "a-priori-error", ErrorOk(y)) \cup
    C(pr, "exact-without-error", ExactOk(y))
Step(h, x, p, name, cond) ==
    All("C19", x, p) \cup C("C19", name, cond) \cup
    (IF store[h].rs THEN All("C20", x, p) \cup C("C20", "restored:" \o name, cond) ELSE {})

UpdOk(s, xs, p) ==
    IF Len(xs) = 1 THEN UpdateOk(s, xs[1][1], xs[1][2], p.cs, p.off)
    ELSE SeveralOk(s, Plus(Zero(Len(s.cs)), xs), s.off, p.cs, p.off)
Same(x, p) == p.w = x.w /\ p.off = x.off /\ p.cs = x.cs

Judge(e) ==
  Isolated(e) \cup
  C("C19", "only-the-target-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C20", "independent", (e.op = "begin") \/ e.chg = <<>>) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         (IF e.in \in {"ser", "str", "twin", "scribble"} THEN C("C20", "no-crash:" \o e.in, FALSE)
          ELSE C("C19", "no-crash:" \o e.in, FALSE))
    [] e.op = "newf" -> C("C19", "fresh", Ok(e) /\ Same(Fresh(e.lg, e.P), e.post) /\ ShapeOk(Fresh(e.lg, e.P), e.post))
    [] e.op = "upd" -> Step(e.h, Offer(S(e.h), e.xs), e.post, "update", Ok(e) /\ UpdOk(S(e.h), e.xs, e.post))
    [] e.op = "bad" -> Step(e.h, S(e.h), e.post, "refuse", Ok(e) /\ e.acc = <<>> /\ Same(S(e.h), e.post))
    [] e.op = "reset" -> C("C19", "reset", Ok(e) /\ Same(Fresh(S(e.h).lg, Len(S(e.h).cs)), e.post) /\ ShapeOk(S(e.h), e.post))
    [] e.op = "merge" ->
         Step(e.h, Absorb(S(e.h), S(e.src)), e.post, "merge",
              Ok(e) /\ e.self /\ SeveralOk(S(e.h), S(e.src).cs, S(e.h).off + S(e.src).off, e.post.cs, e.post.off))
    [] e.op = "q" ->
         C("C19", "query-keeps-contents", Same(S(e.h), e.post)) \cup
         C("C19", "item-bounds", Ok(e) /\ e.maxerr = S(e.h).off /\ \A i \in DOMAIN e.xs : LET x == e.xs[i] t == S(e.h).tr[x] IN
                 e.lb[i] <= t /\ t <= e.ub[i] /\ e.lb[i] <= e.est[i] /\ e.est[i] <= e.ub[i] /\ e.ub[i] - e.lb[i] <= e.maxerr)
    [] e.op = "fi" ->
         C("C19", "query-keeps-contents", Same(S(e.h), e.post)) \cup
         C("C19", "frequent-items", Ok(e) /\ IsInj(e.xs) /\ MustList(S(e.h), e.thr, e.nfn) \subseteq ToSet(e.xs)
                                         /\ ToSet(e.xs) \subseteq MayList(S(e.h), e.thr, e.nfn)) \cup
         C("C19", "row-bounds", Ok(e) => \A i \in DOMAIN e.xs : LET x == e.xs[i] t == S(e.h).tr[x] IN
                 e.lb[i] <= t /\ t <= e.ub[i] /\ e.lb[i] <= e.est[i] /\ e.est[i] <= e.ub[i] /\ e.ub[i] - e.lb[i] <= S(e.h).off) \cup
         C("C19", "descending", Ok(e) => \A i \in 1 .. Len(e.xs) - 1 : e.est[i] >= e.est[i + 1])
    [] e.op = "eps" -> C("C19", "epsilon", Ok(e) /\ e.e2 = 7 /\ e.a2 = 7 * e.wt /\ e.acc = <<>>)
    [] e.op \in {"ser", "str"} ->
         C("C20", "round-trip", Ok(e) /\ Same(S(e.src), e.post) /\ ShapeOk(S(e.src), e.post)) \cup
         C("C20", "declared-size", Ok(e) => e.size = e.len) \cup
         C("C20", "deterministic", Ok(e) => e.stable)
    [] e.op = "twin" -> C("C20", "continues-alike", Ok(e) /\ e.same)
    [] OTHER -> {"unknown-op"}

D(s, rs) == [s |-> s, rs |-> rs]
Into(e, x) == [store EXCEPT ![e.h].s = Adopt(x, e.post)]
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newf" /\ Ok(e) -> (e.h :> D(Adopt(Fresh(e.lg, e.P), e.post), FALSE)) @@ store
    [] e.op = "upd" -> Into(e, Offer(S(e.h), e.xs))
    [] e.op \in {"bad", "q", "fi"} -> Into(e, S(e.h))
    [] e.op = "reset" -> Into(e, Fresh(S(e.h).lg, Len(S(e.h).cs)))
    [] e.op = "merge" -> Into(e, Absorb(S(e.h), S(e.src)))
    [] e.op \in {"ser", "str"} /\ Ok(e) -> (e.h :> D(Adopt(S(e.src), e.post), TRUE)) @@ store
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store>>
=============================================================================
