---------------------------- MODULE Trace_Params ----------------------------
EXTENDS Mon, Params
VARIABLES l, ob        \* the object at hand: its kind and parameters
Ok(e) == e.err = 0
Right(kind, p, e) ==
    C("C32", "reports:" \o kind, e.rep = Reports(kind, p)) \cup
    C("C32", "within-size:" \o kind, kind \in Bounded => e.size <= Most(kind, p))
Judge(e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "crash" -> C("C32", "no-crash:" \o e.in, FALSE)
    [] e.op = "make" ->
         C("C32", "known-kind", e.kind \in Kinds) \cup
         C("C32", (IF e.made THEN "refuses:" ELSE "accepts:") \o e.kind, e.made = Accepts(e.kind, e.p)) \cup
         C("C32", "lives:" \o e.kind, e.err = (IF e.made THEN 0 ELSE 1)) \cup
         (IF e.made /\ Ok(e) /\ Accepts(e.kind, e.p) THEN Right(e.kind, e.p, e) ELSE {})
    [] e.op = "life" ->
         C("C32", e.did \o ":" \o ob[1], Ok(e)) \cup
         (IF Ok(e) /\ Accepts(ob[1], ob[2]) THEN Right(ob[1], ob[2], e) ELSE {})
    [] e.op = "ask" ->
         C("C32", "deviations", Ok(e) /\ e.oks = <<e.nsd \in 1 .. 3, e.nsd \in 1 .. 3>>)
Init == l = 1 /\ ob = <<>> /\ TLCSet(1, 0)
Next == /\ l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
        /\ ob' = IF Trace[l].op = "make" THEN <<Trace[l].kind, Trace[l].p>> ELSE ob
Spec == Init /\ [][Next]_<<l, ob>>
=============================================================================
