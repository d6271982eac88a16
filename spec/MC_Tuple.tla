----------------------------- MODULE MC_Tuple -----------------------------
(***************************************************************************)
(* Implementation-shaped model of tuple sketches: summaries are mutable    *)
(* cells in a heap, sketches and operators hold references.  CLONE says    *)
(* whether the operators copy the cells they take in and hand out; the     *)
(* isolation and contract invariants need it (with CLONE = FALSE TLC finds *)
(* the aliasing defect that the library had).                              *)
(***************************************************************************)
EXTENDS Tuple, Json

CONSTANTS K, CAP, NH, D, EMIT, CLONE
Hash == 1 .. NH
MAXT == NH + 1
kind == "list"

VARIABLES heap, u, gu, g, ut, un, it, ic, res, ok, hist
vars == <<heap, u, gu, g, ut, un, it, ic, res, ok, hist>>
view == <<heap, u, gu, g, ut, un, it, ic, res, ok>>

(* a concrete sketch: [emp, theta, c] with c : key -> cell                 *)
CS(e, t, c) == [emp |-> e, theta |-> t, c |-> c]
Empty == CS(TRUE, MAXT, <<>>)
Keys(s) == DOMAIN s.c
Deref(s, hp) == [emp |-> s.emp, theta |-> s.theta, set |-> Keys(s), m |-> [h \in Keys(s) |-> hp[s.c[h]]]]
Restrict(c, S) == [h \in S |-> c[h]]

Nth(S, n) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = n
Rebuild(s) == LET t == Nth(Keys(s), K) IN CS(s.emp, t, Restrict(s.c, Below(Keys(s), t)))
Put(s, h, cell) ==
    LET s1 == CS(FALSE, s.theta, (h :> cell) @@ s.c)
    IN IF Cardinality(Keys(s1)) > CAP THEN Rebuild(s1) ELSE s1

(* copying every cell of a sketch                                          *)
RECURSIVE CopyAll(_, _, _, _)
CopyAll(S, c, hp, acc) ==
    IF S = {} THEN [hp |-> hp, c |-> acc]
    ELSE LET h == MinOf(S)
         IN IF CLONE THEN CopyAll(S \ {h}, c, Append(hp, hp[c[h]]), (h :> (Len(hp) + 1)) @@ acc)
            ELSE CopyAll(S \ {h}, c, hp, (h :> c[h]) @@ acc)

(* merging the cells of s (keys in S) into operator contents (hp, x)       *)
RECURSIVE Fold(_, _, _, _)
Fold(S, s, hp, x) ==
    IF S = {} THEN [hp |-> hp, x |-> x]
    ELSE LET h == MinOf(S) IN
         IF h >= x.theta THEN Fold(S \ {h}, s, hp, x)
         ELSE IF h \in Keys(x)
         THEN Fold(S \ {h}, s, [hp EXCEPT ![x.c[h]] = Merge(kind, @, hp[s.c[h]])], x)
         ELSE IF CLONE THEN Fold(S \ {h}, s, Append(hp, hp[s.c[h]]), Put(x, h, Len(hp) + 1))
              ELSE Fold(S \ {h}, s, hp, Put(x, h, s.c[h]))

Init ==
    /\ heap = <<>>
    /\ u = [i \in {1, 2} |-> Empty] /\ gu = [i \in {1, 2} |-> Deref(Empty, <<>>)]
    /\ g = Empty /\ ut = MAXT /\ un = TUnionInit(K, MAXT)
    /\ it = [valid |-> FALSE, s |-> CS(FALSE, MAXT, <<>>)] /\ ic = TInterInit(MAXT)
    /\ res = [def |-> FALSE, s |-> Empty, gv |-> Deref(Empty, <<>>)] /\ ok = TRUE
    /\ hist = << <<"newu", 1>>, <<"newu", 2>>, <<"newn", 3>>, <<"newi", 4>> >>

Srcs == {1, 2} \cup (IF res.def THEN {5} ELSE {})
Val(h) == IF h = 5 THEN res.s ELSE u[h]
GVal(h) == IF h = 5 THEN res.gv ELSE gu[h]
Log(c) == hist' = Append(hist, c)

Upd(i, h) ==
    LET s == u[i] IN
    /\ IF h >= s.theta THEN u' = [u EXCEPT ![i].emp = FALSE] /\ UNCHANGED heap
       ELSE IF h \in Keys(s) THEN heap' = [heap EXCEPT ![s.c[h]] = Offer(kind, @, i)] /\ UNCHANGED u
       ELSE heap' = Append(heap, Offer(kind, Zero(kind), i)) /\ u' = [u EXCEPT ![i] = Put(s, h, Len(heap) + 1)]
    /\ gu' = [gu EXCEPT ![i] = Deref(u'[i], heap')]
    /\ ok' = (UpdateRel(Sk(s.emp, s.theta, Keys(s)), s.theta, K, {h}, Sk(u'[i].emp, u'[i].theta, Keys(u'[i])))
              /\ FoldRel(kind, GVal(i), <<h>>, <<i>>, Deref(u'[i], heap')))
    /\ Log(<<"upd", i, h>>) /\ UNCHANGED <<g, ut, un, it, ic, res>>
Trim(i) ==
    /\ u' = [u EXCEPT ![i] = IF Cardinality(Keys(@)) > K THEN Rebuild(@) ELSE @]
    /\ gu' = [gu EXCEPT ![i] = Deref(u'[i], heap)]
    /\ ok' = SameSums(Deref(u'[i], heap), gu[i])
    /\ Log(<<"trim", i>>) /\ UNCHANGED <<heap, g, ut, un, it, ic, res>>

NUpd(h) ==
    LET s == Val(h) IN
    /\ IF s.emp THEN UNCHANGED <<g, ut, heap>>
       ELSE LET t == Min2(ut, s.theta)
                f == Fold(Below(Keys(s), t), s, heap, [g EXCEPT !.emp = FALSE])
            IN g' = f.x /\ heap' = f.hp /\ ut' = Min2(t, f.x.theta)
    /\ un' = TUnionStep(kind, un, GVal(h))
    /\ Log(<<"nupd", 3, h>>) /\ UNCHANGED <<u, gu, it, ic, res, ok>>
UnionRes ==
    IF g.emp THEN Empty
    ELSE LET t == Min2(ut, g.theta) c == Restrict(g.c, Below(Keys(g), t))
         IN IF Cardinality(DOMAIN c) > K THEN Rebuild(CS(FALSE, t, c)) ELSE CS(FALSE, t, c)
SetRes(s, good(_)) ==
    LET f == CopyAll(Keys(s), s.c, heap, <<>>) r == CS(s.emp, s.theta, f.c)
    IN /\ heap' = f.hp
       /\ res' = [def |-> TRUE, s |-> r, gv |-> Deref(r, f.hp)]
       /\ ok' = good(Deref(r, f.hp))
NRes ==
    /\ SetRes(UnionRes, LAMBDA r : TUnionResult(un, r))
    /\ Log(<<"nres", 5, 3>>) /\ UNCHANGED <<u, gu, g, ut, un, it, ic>>
(* reset clears the cells in place                                         *)
NReset ==
    /\ heap' = [i \in DOMAIN heap |-> IF \E h \in Keys(g) : g.c[h] = i THEN Zero(kind) ELSE heap[i]]
    /\ g' = Empty /\ ut' = MAXT /\ un' = TUnionInit(K, MAXT)
    /\ Log(<<"nreset", 3>>) /\ UNCHANGED <<u, gu, it, ic, res, ok>>

IUpd(h) ==
    LET s == Val(h) n == TInterStep(kind, ic, GVal(h), MAXT)
        e == it.s.emp \/ s.emp
        t == IF e THEN MAXT ELSE Min2(it.s.theta, s.theta) IN
    /\ IF it.s.emp THEN UNCHANGED <<it, heap>>
       ELSE IF it.valid /\ Keys(it.s) = {} THEN it' = [it EXCEPT !.s = CS(e, t, <<>>)] /\ UNCHANGED heap
       ELSE IF Keys(s) = {} THEN it' = [valid |-> TRUE, s |-> CS(e, t, <<>>)] /\ UNCHANGED heap
       ELSE IF ~it.valid THEN LET f == CopyAll(Keys(s), s.c, heap, <<>>)
                              IN it' = [valid |-> TRUE, s |-> CS(e, t, f.c)] /\ heap' = f.hp
       ELSE LET m == {x \in Keys(s) : x < t /\ x \in Keys(it.s)}
                f == Fold(m, s, heap, [it.s EXCEPT !.theta = t])
            IN it' = [valid |-> TRUE, s |-> CS(e \/ (m = {} /\ t = MAXT), t, Restrict(it.s.c, m))] /\ heap' = f.hp
    /\ ic' = n
    /\ Log(<<"iupd", 4, h>>) /\ UNCHANGED <<u, gu, g, ut, un, res, ok>>
IRes ==
    /\ it.valid
    /\ SetRes(it.s, LAMBDA r : TInterResult(ic, r))
    /\ Log(<<"ires", 5, 4>>) /\ UNCHANGED <<u, gu, g, ut, un, it, ic>>

ANB(a, b) ==
    LET x == Val(a) y == Val(b)
        t == Min2(x.theta, y.theta)
        S == Below(Keys(x) \ Keys(y), t)
        r == IF x.emp \/ (Keys(x) # {} /\ y.emp) THEN x ELSE CS(S = {} /\ t = MAXT, t, Restrict(x.c, S)) IN
    /\ SetRes(r, LAMBDA d : SameSums(d, GVal(a))
                   /\ ANotBRel(Sk(x.emp, x.theta, Keys(x)), Sk(y.emp, y.theta, Keys(y)), MAXT, Sk(r.emp, r.theta, Keys(r))))
    /\ Log(<<"anb", 5, a, b>>) /\ UNCHANGED <<u, gu, g, ut, un, it, ic>>

Copy(op, h) ==
    /\ SetRes(Val(h), LAMBDA d : d = GVal(h))
    /\ Log(<<op, 5, h>>) /\ UNCHANGED <<u, gu, g, ut, un, it, ic>>

Next ==
    /\ Len(hist) < D + 4
    /\ \/ \E i \in {1, 2}, v \in Hash : Upd(i, v)
       \/ \E i \in {1, 2} : Trim(i)
       \/ \E h \in Srcs : NUpd(h) \/ IUpd(h)
       \/ NRes \/ NReset \/ IRes
       \/ \E a, b \in Srcs : ANB(a, b)
       \/ \E op \in {"compact", "ser"}, h \in {1, 2} : Copy(op, h)
Spec == Init /\ [][Next]_vars

(* no operation changes the summaries of a sketch it was not called on     *)
Isolated == /\ \A i \in {1, 2} : Deref(u[i], heap) = gu[i]
            /\ res.def => Deref(res.s, heap) = res.gv
Contract == ok
UnionAlways == TUnionResult(un, Deref(UnionRes, heap))
InterAlways == (it.valid <=> ic.valid) /\ (it.valid => TInterResult(ic, Deref(it.s, heap)))
Bounded == \A i \in {1, 2} : Cardinality(Keys(u[i])) <= CAP

Emit == (EMIT /\ Len(hist) = D + 4) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
