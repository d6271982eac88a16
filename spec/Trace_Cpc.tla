----------------------------- MODULE Trace_Cpc -----------------------------
EXTENDS Mon, Cpc

VARIABLES l, store
(* store: handle -> [t |-> "sk" | "un", s |-> abstract sketch]             *)

Abs(p) == Sketch(p.lgk, p.sid, ToSet(p.cs), p.mg)
Same(s, p) == s.lgk = p.lgk /\ s.cs = ToSet(p.cs)
S(h) == store[h].s
Ok(e) == e.err = 0
(* the number of coupons the sketch and its image speak of                 *)
Counted(p) == p.nc = Len(p.cs) /\ p.pc = p.nc

Own(h) == IF store[h].t = "un" THEN "C11" ELSE "C10"

Judge(e) ==
  Isolated(e) \cup
  C("C11", "sources-untouched", e.op \in {"umerge", "ures"} => e.chg = <<>>) \cup
  C("C12", "independent", (e.op = "begin") \/ (IF e.op = "twin" THEN ToSet(e.chg) \subseteq {e.src} ELSE e.chg = <<>>)) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         (CASE e.in \in {"newc", "upd", "again"} -> C("C10", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"newn", "umerge", "ures"} -> C("C11", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"ser", "xser", "copy", "twin", "scribble"} -> C("C12", "no-crash:" \o e.in, FALSE)
            [] OTHER -> C("C28", "no-crash:" \o e.in, FALSE))
    [] e.op = "newc" -> C("C10", "fresh", Ok(e) /\ Same(Fresh(e.lgk, e.sid), e.post) /\ Counted(e.post))
    [] e.op = "newn" -> C("C11", "fresh", Ok(e) /\ Same(Fresh(e.lgk, e.sid), e.post))
    [] e.op = "upd" ->
         LET p == Offered(S(e.h), e.ks) IN
         C("C10", "offered-coupons", Ok(e) /\ Same(p, e.post)) \cup
         C("C10", "coupon-count", Ok(e) => Counted(e.post)) \cup
         (IF S(e.h).mg THEN C("C11", "result-updatable", Ok(e) /\ Same(p, e.post) /\ Counted(e.post)) ELSE {})
    [] e.op = "again" ->   \* items that were offered before
         C("C10", "again-no-change", Ok(e) /\ Same(S(e.h), e.post) /\ Counted(e.post) /\ e.post.es = e.ses) \cup
         C("C28", "again-no-change", e.post.es = e.ses)
    [] e.op = "umerge" ->
         IF Refused(S(e.h), S(e.src)) THEN C("C11", "refuse-seed", ~Ok(e) /\ Same(S(e.h), e.post))
         ELSE C("C11", "merge", Ok(e) /\ Same(Merged(S(e.h), S(e.src)), e.post)) \cup
              C("C30", "matrix-handed-out", e.kept)
    [] e.op = "ures" ->
         C("C11", "result", Ok(e) /\ Same(S(e.src), e.post) /\ Counted(e.post) /\ e.post.mg) \cup
         C("C11", "result-estimate", Ok(e) => e.post.es = e.ies)
    [] e.op = "copy" ->
         C("C12", "copy", Ok(e) /\ Same(S(e.src), e.post) /\ Counted(e.post) /\ e.post.mg = S(e.src).mg) \cup
         C("C12", "copy-estimates", Ok(e) => e.post.es = e.ses)
    [] e.op = "ser" ->
         C("C12", "round-trip", Ok(e) /\ Same(S(e.src), e.post) /\ Counted(e.post) /\ e.post.mg = S(e.src).mg) \cup
         C("C12", "estimates", Ok(e) => e.post.es = e.ses) \cup
         C("C12", "image-estimates", Ok(e) => e.wes = e.ses) \cup
         C("C12", "deterministic-image", Ok(e) => e.stable)
    [] e.op = "xser" -> C("C12", "refuse-seed", ~Ok(e))
    [] e.op = "twin" ->
         C("C12", "continues-alike", Ok(e) /\ Same(Offered(S(e.h), e.ks), e.post) /\ Same(Offered(S(e.src), e.ks), e.post2)
                                     /\ Counted(e.post) /\ Counted(e.post2)) \cup
         C("C12", "continues-with-same-estimates", Ok(e) => e.post.es = e.post2.es)
    [] e.op = "cov" -> Coverage(e)
    [] e.op = "ref" -> Reference(e)
    [] e.op = "est" ->
         C("C28", "estimate-defined", Ok(e)) \cup
         C("C28", "bounds-ordered", Ok(e) => (e.floor <= e.lbs[3] /\ e.lbs[3] <= e.lbs[2] /\ e.lbs[2] <= e.lbs[1] /\ e.lbs[1] <= e.e
                                /\ e.e <= e.ubs[1] /\ e.ubs[1] <= e.ubs[2] /\ e.ubs[2] <= e.ubs[3])) \cup
         C("C28", "estimate-formula", Ok(e) => e.e = e.formula) \cup
         C("C28", "within-advertised-error", Ok(e) => (e.tlo <= e.e /\ e.e <= e.thi)) \cup
         C("C28", "empty-is-zero", (Ok(e) /\ e.post.cs = <<>>) => (e.e = e.zero /\ e.ubs[3] = e.zero))

After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newn" /\ Ok(e) -> (e.h :> [t |-> "un", s |-> Abs(e.post)]) @@ store
    [] e.op \in {"newc", "copy", "ures", "ser"} /\ Ok(e) -> (e.h :> [t |-> "sk", s |-> Abs(e.post)]) @@ store
    [] e.op \in {"upd", "again", "umerge"} -> [store EXCEPT ![e.h].s = Abs(e.post)]
    [] e.op = "twin" /\ Ok(e) -> [store EXCEPT ![e.h].s = Abs(e.post), ![e.src].s = Abs(e.post2)]
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store>>
=============================================================================
