----------------------------- MODULE Trace_Cms -----------------------------
EXTENDS Mon, Cms

VARIABLES l, store, hsh
(* store: handle -> [s |-> sketch, rs |-> read from an image];             *)
(* hsh: <<nb, nh, seed>> -> columns, which all such sketches share         *)

S(h) == store[h].s
Ok(e) == e.err = 0
Same(x, p) == p.nb = x.nb /\ p.nh = x.nh /\ p.seed = x.seed /\ p.tot = x.tot /\ p.itot = x.tot /\ p.ctr = x.ctr /\ p.rel
Adopt(x, p) == [x EXCEPT !.tot = p.tot, !.ctr = p.ctr]
Sane(x) == NeverUnder(x) /\ TotalOk(x)
Step(h, x, p, name, cond) ==
    C("C21", name, cond /\ Same(x, p)) \cup C("C21", "never-under", Sane(Adopt(x, p))) \cup
    (IF store[h].rs THEN C("C21", "restored:" \o name, cond /\ Same(x, p)) ELSE {})
ColsOk(e) == Len(e.cols) = e.nh /\ \A r \in DOMAIN e.cols : \A x \in DOMAIN e.cols[r] : e.cols[r][x] \in 1 .. e.nb
Key(e) == <<e.nb, e.nh, e.seed>>

Judge(e) ==
  Isolated(e) \cup
  C("C21", "only-the-target-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" -> C("C21", "no-crash:" \o e.in, FALSE)
    [] e.op = "newc" ->
         C("C21", "fresh", Ok(e) /\ Same(Fresh(e.nb, e.nh, e.seed, e.cols), e.post)) \cup
         C("C21", "one-cell-per-row", Ok(e) => ColsOk(e)) \cup
         C("C21", "same-hashing", Ok(e) /\ Key(e) \in DOMAIN hsh => hsh[Key(e)] = e.cols)
    [] e.op = "newbad" -> C("C21", "invalid-parameters-refused", Ok(e) /\ e.acc = <<>>)
    [] e.op = "upd" -> Step(e.h, Upds(S(e.h), e.xs), e.post, "update", Ok(e))
    [] e.op = "noitem" -> Step(e.h, S(e.h), e.post, "empty-item", Ok(e) /\ \A i \in DOMAIN e.est : e.est[i] = 0)
    [] e.op = "merge" -> Step(e.h, Merge(S(e.h), S(e.src)), e.post, "merge", Ok(e) /\ Compatible(S(e.h), S(e.src)))
    [] e.op = "mergebad" -> Step(e.h, S(e.h), e.post, "incompatible-refused", Ok(e) /\ e.acc = <<>>)
    [] e.op = "query" ->
         Step(e.h, S(e.h), e.post, "estimate", Ok(e) /\ \A i \in DOMAIN e.xs : e.est[i] = Estimate(S(e.h), e.xs[i])) \cup
         C("C21", "bounds", Ok(e) => \A i \in DOMAIN e.xs :
               /\ e.lb[i] <= e.est[i] /\ e.lb[i] = Estimate(S(e.h), e.xs[i])
               /\ e.dub[i] <= 2719 * S(e.h).tot /\ e.dub[i] >= 2718 * S(e.h).tot - 1000 * S(e.h).nb - S(e.h).tot)
    [] e.op = "ser" ->
         C("C21", "round-trip", Ok(e) /\ Same(S(e.src), e.post)) \cup
         C("C21", "deterministic", Ok(e) => e.stable) \cup
         C("C21", "wrong-seed-refused", Ok(e) => ~e.wrong)
    [] e.op = "twin" -> C("C21", "continues-alike", Ok(e) /\ e.same)
    [] e.op = "advice" ->
         C("C21", "advice", Ok(e) /\ 1000 * e.b >= 2718 * e.n /\ 10000 * (e.b - 1) < 27183 * e.n /\ e.pa <= e.pb /\ e.pb <= e.pc /\ e.one = 127)
    [] e.op = "acc" ->
         C("C21", "even-rows", Ok(e) /\ \A i \in DOMAIN e.p1 : e.lo1 <= e.p1[i] /\ e.p1[i] <= e.hi1) \cup
         C("C21", "independent-rows", Ok(e) /\ \A i \in DOMAIN e.p2 : e.lo2 <= e.p2[i] /\ e.p2[i] <= e.hi2) \cup
         C("C21", "advertised-error", Ok(e) /\ e.over <= e.maxover)
    [] OTHER -> {"unknown-op"}

D(s, rs) == [s |-> s, rs |-> rs]
Into(e, x) == [store EXCEPT ![e.h].s = Adopt(x, e.post)]
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newc" /\ Ok(e) -> (e.h :> D(Adopt(Fresh(e.nb, e.nh, e.seed, e.cols), e.post), FALSE)) @@ store
    [] e.op = "upd" -> Into(e, Upds(S(e.h), e.xs))
    [] e.op \in {"noitem", "mergebad", "query"} -> Into(e, S(e.h))
    [] e.op = "merge" -> Into(e, Merge(S(e.h), S(e.src)))
    [] e.op = "ser" /\ Ok(e) -> (e.h :> D(Adopt(S(e.src), e.post), TRUE)) @@ store
    [] OTHER -> store
Hash1(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "newc" /\ Ok(e) -> (Key(e) :> e.cols) @@ hsh
    [] OTHER -> hsh

Init == l = 1 /\ store = <<>> /\ hsh = <<>> /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ hsh' = Hash1(e)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store, hsh>>
=============================================================================
