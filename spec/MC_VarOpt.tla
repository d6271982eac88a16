----------------------------- MODULE MC_VarOpt -----------------------------
(* Two VarOpt sketches, their union, and its result.  Weights are          *)
(* multiples of what every threshold divides by.                           *)
EXTENDS VarOpt, Json
CONSTANTS Ks, MKs, Ws, D, EMIT
VARIABLES sk, u, nx, w, in, hist
vars == <<sk, u, nx, w, in, hist>>
view == <<sk, u, nx, w, in, Len(hist)>>
(* w[x]: weight of occurrence x;  in[i]: occurrences offered to sketch i   *)
(* (3: to the union, by way of the sketches)                               *)
Log(c) == hist' = Append(hist, c)
Init ==
    /\ \E k1 \in Ks, k2 \in Ks : sk = [i \in {1, 2} |-> Fresh(IF i = 1 THEN k1 ELSE k2)]
    /\ \E mk \in MKs : u = NewUnion(mk)
    /\ nx = 1 /\ w = <<>> /\ in = [i \in {1, 2, 3} |-> {}]
    /\ hist = << <<"newv", 1, sk[1].k>>, <<"newv", 2, sk[2].k>>, <<"newu", 3, u.mk>> >>
Next ==
    /\ Len(hist) < D + 3
    /\ \/ \E i \in {1, 2}, x \in Ws :
            /\ \E q \in Outcomes(Offer(Abs(sk[i]), nx, x, FALSE)) : sk' = [sk EXCEPT ![i] = q]
            /\ w' = Append(w, x) /\ in' = [in EXCEPT ![i] = @ \cup {nx}] /\ nx' = nx + 1
            /\ UNCHANGED u /\ Log(<<"upd", i, x>>)
       \/ \E i \in {1, 2} :
            /\ sk[i].n > 0 /\ in[i] \cap in[3] = {}
            /\ \E q \in Outcomes(Merge(AbsU(u), sk[i]).g) : u' = [Merge(AbsU(u), sk[i]) EXCEPT !.g = q]
            /\ in' = [in EXCEPT ![3] = @ \cup in[i]]
            /\ UNCHANGED <<sk, nx, w>> /\ Log(<<"merge", 3, i>>)
       \/ EMIT /\ \E i \in {1, 2} : sk[i].n > 0 /\ sk' = [sk EXCEPT ![i] = Fresh(@.k)] /\ in' = [in EXCEPT ![i] = {}] /\ UNCHANGED <<u, nx, w>> /\ Log(<<"reset", i>>)
       \/ EMIT /\ u.n > 0 /\ u' = ResetUnion(u) /\ in' = [in EXCEPT ![3] = {}] /\ UNCHANGED <<sk, nx, w>> /\ Log(<<"ureset", 3>>)
       \/ EMIT /\ \E i \in {1, 2} : UNCHANGED <<sk, u, nx, w, in>> /\ Log(<<"ser", 3 + i, i>>)
       \/ EMIT /\ UNCHANGED <<sk, u, nx, w, in>> /\ Log(<<"user", 6, 3>>)
       \/ EMIT /\ UNCHANGED <<sk, u, nx, w, in>> /\ Log(<<"result", 7, 3>>)
Spec == Init /\ [][Next]_vars

Sum(q) == LET RECURSIVE f(_) f(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN w[x] + f(s \ {x}) IN f(q)
Items(b) == {e[1] : e \in b.h} \cup b.r
Good(b, seen) ==
    /\ SizeOk(b) /\ ThresholdOk(b, w) /\ HeavyExact(b, w)
    /\ b.n = Cardinality(seen) /\ Items(b) \subseteq seen
    /\ Wts(b.h) + b.wr = Sum(seen)
(* The threshold is that of all the weights offered, in whatever order: h  *)
(* holds exactly the items above it, wr the weight of all the others.      *)
Offline(b, seen) == b.r # {} => \A x \in seen : (\E e \in b.h : e[1] = x) \/ w[x] * Cardinality(b.r) <= b.wr
Sketches == \A i \in {1, 2} : Good(sk[i], in[i]) /\ Offline(sk[i], in[i])
Gadget ==
    /\ u.n = Cardinality(in[3]) /\ Items(u.g) \subseteq in[3]
    /\ Wts(u.g.h) + u.g.wr = Sum(in[3])
    /\ \A e \in u.g.h : (~e[3] => e[2] = w[e[1]]) /\ (e[3] => e[2] >= w[e[1]])
Results ==
    LET a == Result(AbsU(u)) IN
    u.n > 0 => \A b \in Outcomes(a) :
        /\ b.n = u.n /\ b.k <= u.mk /\ b.k >= 1
        /\ Marked(b) = {} /\ HeavyExact(b, w) /\ ThresholdOk(b, w) /\ SizeOk(b)
        /\ Items(b) \subseteq in[3]
        /\ Wts(b.h) + b.wr = Sum(in[3]) /\ Offline(b, in[3])
        /\ (u.td > 0 => b.r # {} /\ b.wr * u.td >= u.tn * Cardinality(b.r))
Emit == (EMIT /\ Len(hist) = D + 3) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
