---------------------------- MODULE Trace_Bloom ----------------------------
EXTENDS Mon, Bloom

VARIABLES l, store
(* store: handle -> [s |-> filter, rs |-> read from an image]              *)

S(h) == store[h].s
Ok(e) == e.err = 0
Same(x, p) == p.cap = x.cap /\ p.nh = x.nh /\ p.seed = x.seed /\ ToSet(p.bits) = x.bits
Adopt(x, p) == [x EXCEPT !.bits = ToSet(p.bits)]
Sets(pos) == [x \in DOMAIN pos |-> ToSet(pos[x])]
Step(h, x, p, name, cond) ==
    C("C22", name, cond /\ Same(x, p)) \cup C("C22", "never-forgets", NeverForgets(Adopt(x, p)) /\ InRange(Adopt(x, p))) \cup
    (IF store[h].rs THEN C("C23", "restored:" \o name, cond /\ Same(x, p)) ELSE {})
New(e) == Fresh(e.cap, e.nh, e.seed, Sets(e.pos))
Ask(h, name, cond) == C("C22", name, cond) \cup (IF store[h].rs THEN C("C23", "restored:" \o name, cond) ELSE {})
CountOk(s, e) == e.used = Used(s) /\ e.empty = (s.bits = {})

Judge(e) ==
  Isolated(e) \cup
  C("C22", "only-the-target-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C23", "independent", (e.op = "begin") \/ e.chg = <<>>) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         (IF e.in \in {"ser", "scribble"} THEN C("C23", "no-crash:" \o e.in, FALSE) ELSE C("C22", "no-crash:" \o e.in, FALSE))
    [] e.op = "newb" ->
         C("C22", "fresh", Ok(e) /\ Same(New(e), e.post) /\ e.cap >= e.ask /\ e.cap < e.ask + 64) \cup
         C("C22", "fresh-is-empty", Ok(e) => CountOk(New(e), e))
    [] e.op = "newbad" ->
         C("C22", "invalid-parameters-refused", Ok(e) /\ e.acc = <<>>) \cup
         C("C22", "defaults", Ok(e) /\ e.dseed /\ e.dcap >= 95850 /\ e.dcap <= 95936 /\ e.dnh = 7)
    [] e.op = "upd" -> Step(e.h, Upds(S(e.h), e.xs), e.post, "update", Ok(e))
    [] e.op = "qau" -> Step(e.h, Upd(S(e.h), e.x), e.post, "query-and-update", Ok(e) /\ e.was = Present(S(e.h), e.x))
    [] e.op = "noitem" -> Step(e.h, S(e.h), e.post, "no-item", Ok(e) /\ \A i \in DOMAIN e.says : ~e.says[i])
    [] e.op = "union" -> Step(e.h, Union(S(e.h), S(e.src)), e.post, "union", Ok(e) /\ e.compat)
    [] e.op = "inter" -> Step(e.h, Inter(S(e.h), S(e.src)), e.post, "intersection", Ok(e) /\ e.compat)
    [] e.op = "invert" -> Step(e.h, Invert(S(e.h)), e.post, "inversion", Ok(e))
    [] e.op = "reset" -> Step(e.h, Reset(S(e.h)), e.post, "reset", Ok(e))
    [] e.op = "bad" -> Step(e.h, S(e.h), e.post, "incompatible-refused", Ok(e) /\ e.acc = <<>>)
    [] e.op = "query" ->
         Step(e.h, S(e.h), e.post, "query-keeps-contents", Ok(e)) \cup
         Ask(e.h, "no-false-negative", Ok(e) => \A i \in DOMAIN e.xs : e.xs[i] \in S(e.h).in => e.says[i]) \cup
         Ask(e.h, "membership", Ok(e) => \A i \in DOMAIN e.xs : e.says[i] = Present(S(e.h), e.xs[i]))
    [] e.op = "used" ->
         Step(e.h, S(e.h), e.post, "count-keeps-contents", Ok(e)) \cup
         Ask(e.h, "bits-used", Ok(e) /\ CountOk(S(e.h), e) /\ e.again = e.used)
    [] e.op = "ser" ->
         C("C23", "round-trip", Ok(e) /\ Same(S(e.src), e.post)) \cup
         C("C23", "restored-count", Ok(e) => CountOk(S(e.src), e)) \cup
         C("C23", "size", Ok(e) => e.len = IF S(e.src).bits = {} THEN 24 ELSE 32 + S(e.src).cap \div 8) \cup
         C("C23", "count-in-image", Ok(e) /\ S(e.src).bits # {} => (e.icount = Used(S(e.src)) \/ e.icount = -1)) \cup
         C("C23", "deterministic", Ok(e) => e.stable)
    [] e.op = "acc" ->
         C("C22", "none-missing", Ok(e) /\ e.missing = 0) \cup
         C("C22", "advertised-rate", Ok(e) /\ e.fp <= e.max) \cup
         C("C22", "advice", Ok(e) /\ e.bitsok /\ e.kok /\ e.k2ok /\ e.mlo <= e.m /\ e.m <= e.mlo + 1)
    [] OTHER -> {"unknown-op"}

D(s, rs) == [s |-> s, rs |-> rs]
Into(e, x) == [store EXCEPT ![e.h].s = Adopt(x, e.post)]
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newb" /\ Ok(e) -> (e.h :> D(Adopt(New(e), e.post), FALSE)) @@ store
    [] e.op = "upd" -> Into(e, Upds(S(e.h), e.xs))
    [] e.op = "qau" -> Into(e, Upd(S(e.h), e.x))
    [] e.op \in {"noitem", "bad", "query", "used"} -> Into(e, S(e.h))
    [] e.op = "union" -> Into(e, Union(S(e.h), S(e.src)))
    [] e.op = "inter" -> Into(e, Inter(S(e.h), S(e.src)))
    [] e.op = "invert" -> Into(e, Invert(S(e.h)))
    [] e.op = "reset" -> Into(e, Reset(S(e.h)))
    [] e.op = "ser" /\ Ok(e) -> (e.h :> D(Adopt(S(e.src), e.post), TRUE)) @@ store
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store>>
=============================================================================
