----------------------------- MODULE Trace_Hll -----------------------------
EXTENDS Mon, Hll

VARIABLES l, store

Abs(p) == Sketch(p.lgk, p.typ, p.mode = 2, ToSet(p.cs), p.regs)

(* coupon and register statistics that the image carries                   *)
Zeros0(p) == Cardinality({i \in DOMAIN p.regs : p.regs[i] = 0})
WellFormed(p) ==
    /\ p.emp = (p.mode < 2 /\ p.cs = <<>>)
    /\ IF p.mode < 2
       THEN p.regs = <<>> /\ IsInj(p.cs) /\ p.nm = Len(p.cs) /\ Len(p.cs) <= Max2(8, 2 ^ (p.lgk - 3))
       ELSE /\ Len(p.regs) = 2 ^ p.lgk
            /\ \A i \in DOMAIN p.regs : p.regs[i] \in 0 .. 63
            /\ IF p.typ = 0
               THEN /\ p.nm = Cardinality({i \in DOMAIN p.regs : p.regs[i] = p.cm})
                    /\ \A i \in DOMAIN p.regs : p.regs[i] >= p.cm
                    /\ p.nm > 0
               ELSE IF p.cm = 0 THEN p.nm = Zeros0(p) ELSE Zeros0(p) = 0
            /\ p.kx = p.kxf
    /\ p.agree

Ok(e) == e.err = 0
S(h) == store[h].s
Own(h) == IF store[h].t = "un" THEN "C08" ELSE "C07"

(* a restored union holds the content as an HLL_8 gadget                   *)
Restored(e) == LET s == S(e.src) p == Abs(e.post) IN
    /\ SameContent(s, p)
    /\ p.typ = IF e.un THEN 2 ELSE s.typ

Judge(e) ==
  Isolated(e) \cup
  C("C08", "sources-untouched", e.op \in {"umerge", "ures"} => e.chg = <<>>) \cup
  C("C09", "independent", (e.op = "begin") \/ (IF e.op = "twin" THEN ToSet(e.chg) \subseteq {e.src} ELSE e.chg = <<>>)) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         (CASE e.in \in {"newh", "upd", "reset", "copy"} -> C("C07", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"newn", "umerge", "ures"} -> C("C08", "no-crash:" \o e.in, FALSE)
            [] e.in \in {"ser", "twin", "scribble"} -> C("C09", "no-crash:" \o e.in, FALSE)
            [] OTHER -> C("C28", "no-crash:" \o e.in, FALSE))
    [] e.op = "newh" -> C("C07", "fresh", Ok(e) /\ Abs(e.post) = Fresh(e.lgk, e.typ) /\ WellFormed(e.post) /\ e.dflt = <<12, 0, 12, 2>>)
    [] e.op = "newn" -> C("C08", "fresh", Ok(e) /\ Abs(e.post) = Fresh(e.lgk, 2) /\ WellFormed(e.post))
    [] e.op = "upd" ->
         C(Own(e.h), "offered-items", Ok(e) /\ OfferRel(S(e.h), e.ks, Abs(e.post))) \cup
         C(Own(e.h), "statistics", WellFormed(e.post))
    [] e.op = "reset" ->
         C(Own(e.h), "reset", Ok(e) /\ e.post.mode = 0 /\ e.post.cs = <<>> /\ e.post.emp /\ e.post.typ = S(e.h).typ
                 /\ e.post.lgk \in {S(e.h).lgk, IF store[e.h].t = "un" THEN store[e.h].mx ELSE S(e.h).lgk})
    [] e.op = "copy" ->
         LET ty == IF e.typ = 3 THEN S(e.src).typ ELSE e.typ IN
         C("C07", "conversion", Ok(e) /\ SameContent(S(e.src), Abs(e.post)) /\ e.post.typ = ty /\ WellFormed(e.post)) \cup
         C("C09", "copy", Ok(e) /\ SameContent(S(e.src), Abs(e.post)) /\ e.post.typ = ty) \cup
         C("C09", "copy-estimates", Ok(e) => e.post.es = e.ses)
    [] e.op = "umerge" ->
         LET g == S(e.h) s == S(e.src) mx == store[e.h].mx p == Abs(e.post) IN
         C("C08", "merge", IF Ok(e) THEN MergeRel(g, mx, s, p) ELSE MayRefuse(g, mx, s) /\ p = g) \cup
         C("C08", "statistics", WellFormed(e.post)) \cup
         C("C08", "current-estimates", Ok(e) => e.es = e.rs)
    [] e.op = "ures" ->
         C("C08", "result", Ok(e) /\ SameContent(S(e.src), Abs(e.post)) /\ e.post.typ = e.typ /\ WellFormed(e.post)) \cup
         C("C08", "result-estimates", Ok(e) => e.post.es = e.ses)
    [] e.op = "ser" ->
         C("C09", "round-trip", Ok(e) /\ Restored(e)) \cup
         C("C09", "statistics", Ok(e) => WellFormed(e.post)) \cup
         C("C09", "estimates", (Ok(e) /\ ~(e.un /\ e.post.mode = 2 /\ S(e.src).typ # 2)) => e.post.es = e.ses) \cup
         C("C09", "deterministic-image", Ok(e) => e.stable) \cup
         C("C09", "declared-size", Ok(e) => e.post.dsz = e.post.asz)
    [] e.op = "twin" ->
         C("C09", "continues-alike", Ok(e) /\ OfferRel(S(e.h), e.ks, Abs(e.post)) /\ OfferRel(S(e.src), e.ks, Abs(e.post2))) \cup
         C("C09", "continues-with-same-estimates",
             (Ok(e) /\ store[e.h].t = "sk" /\ store[e.src].t = "sk" /\ e.post.mode = e.post2.mode) => e.post.es = e.post2.es) \cup
         C("C09", "statistics", Ok(e) => (WellFormed(e.post) /\ WellFormed(e.post2)))
    [] e.op = "cov" -> Coverage(e)
    [] e.op = "ref" -> Reference(e)
    [] e.op = "est" ->
         C("C28", "estimate-defined", Ok(e)) \cup
         C("C28", "bounds-ordered", Ok(e) => (e.floor <= e.lbs[3] /\ e.lbs[3] <= e.lbs[2] /\ e.lbs[2] <= e.lbs[1] /\ e.lbs[1] <= e.e
                                /\ e.e <= e.ubs[1] /\ e.ubs[1] <= e.ubs[2] /\ e.ubs[2] <= e.ubs[3])) \cup
         C("C28", "estimate-formula", Ok(e) => e.e = e.formula) \cup
         C("C28", "composite-of-content", Ok(e) => e.ce = e.ref) \cup
         C("C28", "within-advertised-error", Ok(e) => (e.tlo <= e.e /\ e.e <= e.thi)) \cup
         C("C28", "empty-is-zero", (Ok(e) /\ e.post.emp) => (e.e = e.zero /\ e.ubs[3] = e.zero))

After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newn" /\ Ok(e) -> (e.h :> [t |-> "un", mx |-> e.lgk, s |-> Abs(e.post)]) @@ store
    [] e.op \in {"newh", "copy", "ures"} /\ Ok(e) -> (e.h :> [t |-> "sk", mx |-> 0, s |-> Abs(e.post)]) @@ store
    [] e.op = "ser" /\ Ok(e) ->
         (e.h :> IF e.un THEN [t |-> "un", mx |-> e.post.lgk, s |-> Abs(e.post)]
                 ELSE [t |-> "sk", mx |-> 0, s |-> Abs(e.post)]) @@ store
    [] e.op \in {"upd", "reset", "umerge"} -> [store EXCEPT ![e.h].s = Abs(e.post)]
    [] e.op = "twin" /\ Ok(e) -> [store EXCEPT ![e.h].s = Abs(e.post), ![e.src].s = Abs(e.post2)]
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store>>
=============================================================================
