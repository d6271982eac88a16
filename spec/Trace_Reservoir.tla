-------------------------- MODULE Trace_Reservoir --------------------------
EXTENDS Mon, Reservoir

VARIABLES l, store
(* store: handle -> [s |-> sketch or union, un |-> is a union,             *)
(*                   rs |-> read from an image, rg |-> result of a union]  *)

S(h) == store[h].s
Ok(e) == e.err = 0
BagOf(q) == [x \in ToSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Sk(p) == [k |-> p.k, n |-> p.n, s |-> BagOf(p.s)]
Un(p) == [mk |-> p.mk, g |-> Sk(p.g)]
Tagged(h, name, cond) ==
    C("C24", name, cond) \cup (IF store[h].rs THEN C("C27", "restored:" \o name, cond) ELSE {})
Step(h, name, cond, p) == Tagged(h, name, cond) \cup Tagged(h, "holds-min-n-k", IF store[h].un THEN p.g.k = 0 \/ SizeOk(Un(p).g) ELSE SizeOk(Sk(p)))
Src(h) == store[h].s

RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= 46340 /\ m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m - 1)
Sqrt(n) == Isqrt(n, 0, 46340) + 1
AbsI(x) == IF x < 0 THEN -x ELSE x
(* c of T trials for an event of probability a/b, up to seven deviations   *)
Likely(c, T, a, b) == AbsI(c * b - T * a) <= 7 * Sqrt(T * a * (b - a)) + 8 * b
UniK(e) ==
    IF e.mode \in {"sketch", "copy"} THEN e.k
    ELSE LET u == [mk |-> e.mk, g |-> [k |-> MinOf(e.k, e.mk), n |-> e.n, s |-> EmptyBag]]
         IN IF e.mode = "add" THEN u.g.k ELSE MergeK(u, [k |-> e.k2, n |-> e.n2, s |-> EmptyBag])
UniN(e) == IF e.mode \in {"sketch", "copy"} THEN e.n ELSE e.n + e.n2
(* how many samples come from the second input; between 0 and k each time, *)
(* so at most 7 * sqrt(T) * k / 2 off                                      *)
Share(e) ==
    LET k == MinOf(UniK(e), UniN(e))
        got == SumSeq([x \in 1 .. e.n2 |-> e.cnt[e.n + x]])
    IN AbsI(got * UniN(e) - e.T * k * e.n2) <= 4 * Sqrt(e.T) * k * UniN(e)
(* the spread of how many of the samples come from the first half          *)
Spread(e) ==
    LET a == e.n \div 2
        ex == (((e.T * e.k * a * (e.n - a)) \div e.n) * (e.n - e.k)) \div (e.n - 1)
        v == e.T * e.half2 - e.half * e.half
    IN AbsI(v * e.n - ex * e.T) <= (ex \div 10) * 3 * e.T + 20 * e.n * e.T

Judge(e) ==
  Isolated(e) \cup
  C("C24", "only-the-target-changes:" \o e.op, (e.op = "begin") \/ e.chg = <<>>) \cup
  C("C27", "independent", (e.op = "begin") \/ e.chg = <<>>) \cup
  CASE e.op \in {"begin", "drop", "scribble", "show"} -> {}
    [] e.op = "crash" ->
         (IF e.in \in {"ser", "scribble"} THEN C("C27", "no-crash:" \o e.in, FALSE) ELSE C("C24", "no-crash:" \o e.in, FALSE))
    [] e.op = "newr" -> C("C24", "fresh", Ok(e) /\ Sk(e.post) = Fresh(e.k))
    [] e.op = "newu" -> C("C24", "fresh-union", Ok(e) /\ e.post.mk = e.mk /\ e.post.g.n = 0 /\ e.post.g.s = <<>>)
    [] e.op = "newbad" ->
         C("C24", "invalid-parameters-refused", Ok(e) => e.acc = <<>>) \cup C("C24", "nil-items-ignored", Ok(e) /\ e.nils = 0)
    [] e.op = "upd" ->
         IF store[e.h].un THEN Step(e.h, "union-update", Ok(e) /\ AddOk(S(e.h), e.lo, e.hi, Un(e.post)), e.post)
         ELSE Step(e.h, "update", Ok(e) /\ OfferOk(S(e.h), e.lo, e.hi, Sk(e.post)), e.post)
    [] e.op = "reset" ->
         Step(e.h, "reset", Ok(e) /\ (IF store[e.h].un THEN ResetOk(S(e.h), Un(e.post)) ELSE Sk(e.post) = Fresh(S(e.h).k)), e.post)
    [] e.op = "copy" -> C("C24", "copy", Ok(e) /\ Sk(e.post) = S(e.src))
    [] e.op = "samples" -> Step(e.h, "samples-are-a-copy", Ok(e) /\ Sk(e.post) = S(e.h), e.post)
    [] e.op = "est" ->
         Step(e.h, "estimate-keeps-contents", Ok(e) /\ Sk(e.post) = S(e.h), e.post) \cup
         Tagged(e.h, "subset-sum-ordered", Ok(e) => e.zero <= e.lb /\ e.lb <= e.e /\ e.e <= e.ub /\ e.ub <= e.tot /\ e.tot = e.n) \cup
         Tagged(e.h, "subset-sum-exact", Ok(e) /\ Exact(S(e.h)) => e.lb = e.tcr /\ e.e = e.tcr /\ e.ub = e.tcr) \cup
         Tagged(e.h, "subset-sum-estimate", Ok(e) => e.e = e.er) \cup
         Tagged(e.h, "subset-sum-bounds", Ok(e) /\ ~Exact(S(e.h)) => e.lb = e.rlb /\ e.ub = e.rub)
    [] e.op = "merge" -> Step(e.h, "union", Ok(e) /\ (IF S(e.src).n = 0 /\ S(e.h).g.k = 0 THEN Un(e.post).g.n = 0 ELSE MergeOk(S(e.h), S(e.src), Un(e.post))), e.post)
    [] e.op = "raw" ->
         IF e.bad THEN Step(e.h, "raw-refused", ~Ok(e) /\ Un(e.post) = S(e.h), e.post)
         ELSE Step(e.h, "union-raw", Ok(e) /\ MergeOk(S(e.h), [k |-> e.k, n |-> e.n, s |-> SetToBag(e.lo .. e.hi)], Un(e.post)), e.post)
    [] e.op = "result" ->
         C("C24", "result", Ok(e) /\ (IF e.some THEN Sk(e.post) = S(e.src).g ELSE S(e.src).g.n = 0)) \cup
         (IF store[e.src].rs THEN C("C27", "restored:result", Ok(e) /\ (IF e.some THEN Sk(e.post) = S(e.src).g ELSE S(e.src).g.n = 0)) ELSE {})
    [] e.op = "ser" ->
         (IF store[e.src].un
          THEN C("C27", "round-trip", Ok(e) /\ RestoredOk(S(e.src), Un(e.post))) \cup
               C("C27", "layout", Ok(e) => e.uhead /\ e.umk = S(e.src).mk /\ (S(e.src).g.n > 0 =>
                    e.head /\ e.ik = S(e.src).g.k /\ e.in = S(e.src).g.n /\ BagOf(e.is) = S(e.src).g.s))
          ELSE C("C27", "round-trip", Ok(e) /\ Sk(e.post) = S(e.src)) \cup
               C("C27", "layout", Ok(e) => e.head /\ e.ik = S(e.src).k /\ e.in = S(e.src).n /\ BagOf(e.is) = S(e.src).s)) \cup
         C("C27", "deterministic", Ok(e) => e.stable)
    [] e.op = "uni" ->
         C("C24", "uniform", Ok(e) /\ e.ks = <<UniK(e)>> /\ Len(e.cnt) = UniN(e)
              /\ \A x \in DOMAIN e.cnt : Likely(e.cnt[x], e.T, MinOf(UniK(e), UniN(e)), UniN(e))) \cup
         C("C24", "uniform-share", Ok(e) /\ e.mode = "union" => Share(e)) \cup
         C("C24", "uniform-spread", Ok(e) /\ e.mode \in {"sketch", "copy"} => Spread(e))
    [] OTHER -> {"unknown-op"}

D(s, un, rs) == [s |-> s, un |-> un, rs |-> rs]
After(e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "drop" -> [x \in DOMAIN store \ {e.d} |-> store[x]]
    [] e.op = "newr" /\ Ok(e) -> (e.h :> D(Sk(e.post), FALSE, FALSE)) @@ store
    [] e.op = "newu" /\ Ok(e) -> (e.h :> D(Un(e.post), TRUE, FALSE)) @@ store
    [] e.op \in {"upd", "reset", "samples", "est", "merge", "raw"} ->
         [store EXCEPT ![e.h].s = IF store[e.h].un THEN Un(e.post) ELSE Sk(e.post)]
    [] e.op = "copy" /\ Ok(e) -> (e.h :> D(Sk(e.post), FALSE, store[e.src].rs)) @@ store
    [] e.op = "result" /\ Ok(e) /\ e.some -> (e.h :> D(Sk(e.post), FALSE, store[e.src].rs)) @@ store
    [] e.op = "ser" /\ Ok(e) -> (e.h :> D(IF store[e.src].un THEN Un(e.post) ELSE Sk(e.post), store[e.src].un, TRUE)) @@ store
    [] OTHER -> store

Init == l = 1 /\ store = <<>> /\ TLCSet(1, 0)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Report(l, Judge(e))
     /\ store' = After(e)
     /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store>>
=============================================================================
