--------------------------- MODULE Trace_VarOpt ---------------------------
EXTENDS Mon, VarOpt

VARIABLES l, store, grid
(* store: handle -> [s |-> sketch or union, un |-> is a union,             *)
(*                   rs |-> read from an image, rg |-> result of a union]  *)
(* grid: weights are whole numbers, so that every outcome is known;        *)
(* otherwise weights are ranks that can only be compared.                  *)

S(h) == store[h].s
Ok(e) == e.err = 0
Sk(p) == [k |-> p.k, n |-> p.n, h |-> {<<p.h[i][1], p.h[i][2], p.h[i][3]>> : i \in DOMAIN p.h}, r |-> ToSet(p.r), wr |-> p.wr]
Un(p) == [mk |-> p.mk, n |-> p.n, tn |-> p.tn, td |-> p.td, g |-> Sk(p.g)]
Obj(h, p) == IF store[h].un THEN Un(p) ELSE Sk(p)
Prim(h) == IF store[h].un THEN "C26" ELSE "C25"
Tagged(h, name, cond) ==
    C(Prim(h), name, cond)
    \cup (IF store[h].rg THEN C("C26", "result-continues:" \o name, cond) ELSE {})
    \cup (IF store[h].rs THEN C("C27", "restored:" \o name, cond) ELSE {})

(* What holds of a sketch whatever the weights are.                        *)
Conserved(v) == v.tot = v.exp
HeavyKept(v) == v.hw = v.ho
Split(v) == v.ro = <<>> \/ ((\A i \in DOMAIN v.hr : v.hr[i] >= v.tau) /\ (\A i \in DOMAIN v.ro : v.ro[i] <= v.tau))
(* marks of the two sources of a merged union may repeat an occurrence     *)
Distinct(p) == IsInj(p.r) /\ IsInj([i \in DOMAIN p.h |-> p.h[i][1]]) /\ ToSet(p.r) \cap {p.h[i][1] : i \in DOMAIN p.h} = {}
Size(p) == Len(p.h) + Len(p.r) = MinOf(p.n, p.k) /\ (p.r = <<>> <=> p.n <= p.k)
Shape(h, p) ==
    IF store[h].un
    THEN Tagged(h, "at-most-max-k", Len(p.g.h) + Len(p.g.r) <= p.mk /\ p.g.k <= p.mk /\ p.head)
    ELSE Tagged(h, "holds-min-n-k", IF store[h].rg THEN Len(p.h) + Len(p.r) <= p.k ELSE Size(p) /\ Distinct(p))
Inv(h, v) ==
    Tagged(h, "total-weight", Conserved(v)) \cup
    (IF store[h].un THEN {}
     ELSE Tagged(h, "heavy-weights-exact", HeavyKept(v)) \cup Tagged(h, "threshold", Split(v)) \cup Tagged(h, "only-offered", v.off))

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= 46340 /\ m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m - 1)
Sqrt(n) == Isqrt(n, 0, 46340) + 1
(* c of T trials for an event of probability a/b, up to seven deviations   *)
Likely(c, T, a, b) == AbsI(c * b - T * a) * 1 <= 7 * (Sqrt(T) + 1) * Sqrt(a * (b - a)) + 8 * b
(* the mean weight of every occurrence is its own                          *)
UniRef(e) ==
    LET a == Offers(Abs(Fresh(e.k)), e.xs) IN
    IF e.mode # "union" THEN a
    ELSE LET b == Offers(Abs(Fresh(e.k2)), e.xs2)
             any(x) == CHOOSE q \in Outcomes(x) : TRUE
             u1 == Merge(AbsU(NewUnion(e.mk)), any(a))
             (* whichever light ones survive, the next step sees the same weights *)
             u2 == Merge(u1, any(b))
         IN Result(u2)
Uniform(e) ==
    LET a == UniRef(e) all == IF e.mode = "union" THEN e.xs \o e.xs2 ELSE e.xs
        hv == {y[1] : y \in a.h}
        d == a.wr \div 60
    IN \A i \in DOMAIN all :
        IF all[i][1] \in hv THEN e.cnt[i] = e.T
        ELSE Likely(e.cnt[i], e.T, (all[i][2] \div 60) * a.rc, d)

Res(p, u) ==
    IF grid THEN Match(Result(AbsU(u)), Sk(p))
    ELSE p.n = u.n /\ Len(p.h) + Len(p.r) <= u.mk

Judge(e) ==
  Isolated(e) \cup
  C("C25", "only-the-target-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C26", "inputs-not-changed:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C27", "independent", (e.op = "begin") \/ e.chg = <<>>) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         C(IF e.in \in {"ser", "scribble"} THEN "C27" ELSE IF e.in \in {"merge", "mergeres", "result"} THEN "C26" ELSE "C25", "no-crash:" \o e.in, FALSE) \cup
         (IF e.in \in {"ser", "scribble"} THEN {} ELSE C("C27", "no-crash:" \o e.in, FALSE)) \cup
         (IF e.in \in {"upd", "est", "reset"} THEN C("C26", "no-crash:" \o e.in, FALSE) ELSE {})
    [] e.op = "newv" -> C("C25", "fresh", Ok(e) /\ Sk(e.post) = [Fresh(e.k) EXCEPT !.wr = e.post.wr])
    [] e.op = "newu" -> C("C26", "fresh", Ok(e) /\ e.post.mk = e.mk /\ e.post.n = 0 /\ e.post.g.k = e.mk /\ e.post.g.n = 0 /\ e.post.head)
    [] e.op = "newbad" -> C("C25", "invalid-parameters-refused", Ok(e) => e.acc = <<>>) \cup C("C26", "nil-ignored", Ok(e))
    [] e.op = "badw" -> Tagged(e.h, "invalid-weight-refused", Ok(e) /\ e.acc = <<>> /\ Sk(e.post) = S(e.h))
    [] e.op = "upd" ->
         Tagged(e.h, "update", Ok(e) /\ (IF grid THEN Match(Offers(Abs(S(e.h)), e.xs), Sk(e.post)) ELSE e.post.n = S(e.h).n + Len(e.xs) /\ e.post.k = S(e.h).k)) \cup
         Shape(e.h, e.post) \cup
         (IF Ok(e) THEN Inv(e.h, e.inv) \cup Tagged(e.h, "threshold-never-falls", e.ptau <= e.inv.tau) ELSE {})
    [] e.op = "reset" ->
         Tagged(e.h, "reset", Ok(e) /\ (IF store[e.h].un THEN e.post.mk = S(e.h).mk /\ e.post.n = 0 /\ e.post.g.n = 0 /\ e.post.g.h = <<>> /\ e.post.g.r = <<>>
                                       ELSE Sk(e.post) = [Fresh(S(e.h).k) EXCEPT !.wr = e.post.wr]))
    [] e.op = "est" ->
         Tagged(e.h, "estimate-keeps-contents", Ok(e) /\ Sk(e.post) = S(e.h)) \cup
         (IF ~Ok(e) THEN {} ELSE
         Tagged(e.h, "subset-sum-ordered", e.zero <= e.lb /\ e.lb <= e.e /\ e.e <= e.ub /\ e.ub <= e.tot) \cup
         Tagged(e.h, "subset-sum-total", e.tot = e.exp /\ (S(e.h).n > 0 => e.all[2] = e.exp /\ e.all[3] = e.exp /\ e.all[4] = e.exp /\ e.all[1] <= e.exp)) \cup
         Tagged(e.h, "subset-sum-estimate", e.e = e.er) \cup
         Tagged(e.h, "subset-sum-exact", S(e.h).r = {} => e.lb = e.th /\ e.e = e.th /\ e.ub = e.th) \cup
         Tagged(e.h, "subset-sum-bounds", S(e.h).r # {} => e.lb = e.rlb /\ e.ub = e.rub))
    [] e.op = "merge" ->
         Tagged(e.h, "union", Ok(e) /\ (IF grid THEN MatchU(Merge(AbsU(S(e.h)), S(e.src)), Un(e.post)) ELSE e.post.mk = S(e.h).mk /\ e.post.n = S(e.h).n + S(e.src).n)) \cup
         (IF store[e.src].rs THEN C("C27", "restored-as-input", Ok(e)) ELSE {}) \cup
         Shape(e.h, e.post) \cup (IF Ok(e) THEN Inv(e.h, e.inv) ELSE {})
    [] e.op = "mergeres" ->
         Tagged(e.h, "union-reservoir", Ok(e) /\ e.same /\ (IF grid THEN MatchU(MergeRes(AbsU(S(e.h)), e.n, e.k, ToSet(e.xs)), Un(e.post)) ELSE e.post.mk = S(e.h).mk /\ e.post.n = S(e.h).n + e.n)) \cup
         Shape(e.h, e.post) \cup (IF Ok(e) THEN Inv(e.h, e.inv) ELSE {})
    [] e.op = "result" ->
         LET T(name, cond) == C("C26", name, cond) \cup (IF store[e.src].rs THEN C("C27", "restored:" \o name, cond) ELSE {}) IN
         T("result", Ok(e) /\ Res(e.post, S(e.src))) \cup
         (IF ~Ok(e) THEN {} ELSE
          T("result-size", e.post.n = S(e.src).n /\ Len(e.post.h) + Len(e.post.r) <= S(e.src).mk) \cup
          T("result-total-weight", Conserved(e.inv)) \cup
          T("result-heavy-weights-exact", HeavyKept(e.inv)) \cup
          T("result-threshold", Split(e.inv) /\ (e.otau > e.zero => e.post.r # <<>> /\ e.otau <= e.inv.tau)) \cup
          T("result-only-from-inputs", e.inv.off))
    [] e.op = "ser" ->
         LET T(name, cond) == C("C27", name, cond) IN
         T("round-trip", Ok(e) /\ Obj(e.src, e.post) = S(e.src)) \cup
         (IF store[e.src].rg THEN C("C26", "result-continues:round-trip", Ok(e)) ELSE {}) \cup
         (IF ~Ok(e) THEN {} ELSE
          T("layout", e.head /\ Obj(e.src, e.img) = S(e.src)) \cup T("declared-size", e.size) \cup (IF store[e.src].un THEN T("same-results", e.res = e.rres) ELSE {}) \cup T("deterministic", e.stable))
    [] e.op = "uni" ->
         C("C25", "inclusion-probability", Ok(e) /\ (e.mode # "union" => Uniform(e))) \cup
         C("C26", "inclusion-probability", Ok(e) /\ (e.mode = "union" => Uniform(e)))
    [] OTHER -> {"unknown-op"}

D(s, un, rs, rg) == [s |-> s, un |-> un, rs |-> rs, rg |-> rg]
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newv" /\ Ok(e) -> (e.h :> D(Sk(e.post), FALSE, FALSE, FALSE)) @@ store
    [] e.op = "newu" /\ Ok(e) -> (e.h :> D(Un(e.post), TRUE, FALSE, FALSE)) @@ store
    [] e.op = "reset" -> [store EXCEPT ![e.h].s = Obj(e.h, e.post), ![e.h].rg = FALSE]
    [] e.op \in {"upd", "badw", "est", "merge", "mergeres"} -> [store EXCEPT ![e.h].s = Obj(e.h, e.post)]
    [] e.op = "result" /\ Ok(e) -> (e.h :> D(Sk(e.post), FALSE, store[e.src].rs, TRUE)) @@ store
    [] e.op = "ser" /\ Ok(e) -> (e.h :> D(Obj(e.src, e.post), store[e.src].un, TRUE, store[e.src].rg)) @@ store
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ grid = FALSE /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ grid' = (IF e.op = "begin" THEN e.grid ELSE grid)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store, grid>>
=============================================================================
