--------------------------- MODULE MC_Reservoir ---------------------------
(* Two reservoirs and a union.                                             *)
EXTENDS Reservoir, Json
CONSTANTS Ks, MK, D, EMIT
VARIABLES sk, u, nx, seen, hist
vars == <<sk, u, nx, seen, hist>>
view == <<sk, u, nx, seen, Len(hist)>>
(* seen[i]: occurrences offered to sketch i (i = 3: the union)             *)
Log(c) == hist' = Append(hist, c)
Init ==
    /\ \E k1 \in Ks, k2 \in Ks : sk = [i \in {1, 2} |-> Fresh(IF i = 1 THEN k1 ELSE k2)]
    /\ u = NewUnion(MK) /\ nx = 1 /\ seen = [i \in {1, 2, 3} |-> EmptyBag]
    /\ hist = << <<"newr", 1, sk[1].k>>, <<"newr", 2, sk[2].k>>, <<"newu", 3, MK>> >>
Bag(lo, hi) == SetToBag(lo .. hi)
Next ==
    /\ Len(hist) < D + 3
    /\ \/ \E i \in {1, 2}, b \in {1, 3} :
            \E z \in {z \in SubBag(sk[i].s (+) Bag(nx, nx + b - 1)) : BagCardinality(z) = MinOf(sk[i].n + b, sk[i].k)} :
              LET q == [k |-> sk[i].k, n |-> sk[i].n + b, s |-> z] IN
              /\ OfferOk(sk[i], nx, nx + b - 1, q) /\ (b = 1 => q \in Offers(sk[i], nx))
              /\ sk' = [sk EXCEPT ![i] = q] /\ seen' = [seen EXCEPT ![i] = @ (+) Bag(nx, nx + b - 1)] /\ nx' = nx + b
              /\ UNCHANGED u /\ Log(<<"upd", i, b>>)
       \/ \E i \in {1, 2} :
            /\ sk[i].n > 0
            /\ \E v \in Merges(u, sk[i]) : u' = v
            /\ seen' = [seen EXCEPT ![3] = @ (+) seen[i]] /\ UNCHANGED <<sk, nx>> /\ Log(<<"merge", 3, i>>)
       \/ \E v \in Adds(u, nx) : u' = v /\ seen' = [seen EXCEPT ![3] = @ (+) Bag(nx, nx)] /\ nx' = nx + 1 /\ UNCHANGED sk /\ Log(<<"add", 3>>)
       \/ \E i \in {1, 2} : sk[i].n > 0 /\ sk' = [sk EXCEPT ![i] = Fresh(@.k)] /\ seen' = [seen EXCEPT ![i] = EmptyBag] /\ UNCHANGED <<u, nx>> /\ Log(<<"reset", i>>)
       \/ u.g.n > 0 /\ u' = [u EXCEPT !.g = Fresh(@.k)] /\ seen' = [seen EXCEPT ![3] = EmptyBag] /\ UNCHANGED <<sk, nx>> /\ Log(<<"ureset", 3>>)
       \/ EMIT /\ \E i \in {1, 2} : UNCHANGED <<sk, u, nx, seen>> /\ Log(<<"ser", 3 + i, i>>)
       \/ EMIT /\ UNCHANGED <<sk, u, nx, seen>> /\ Log(<<"user", 6, 3>>)
       \/ EMIT /\ UNCHANGED <<sk, u, nx, seen>> /\ Log(<<"result", 7, 3>>)
Spec == Init /\ [][Next]_vars

Good(a, w) == SizeOk(a) /\ a.s \sqsubseteq w /\ a.n = BagCardinality(w) /\ (Exact(a) => a.s = w)
Sketches == \A i \in {1, 2} : Good(sk[i], seen[i])
Union == u.g.k = 0 \/ (Good(u.g, seen[3]) /\ u.g.k <= u.mk)
Emit == (EMIT /\ Len(hist) = D + 3) => PrintT("SCRIPT " \o ToJson(hist))

(* Uniformity: of all equally likely coin sequences, each item survives in *)
(* the same number.  The j-th item (j > k) draws a coin 0 .. j-1 and takes *)
(* the place the coin names, if there is one.                              *)
Place(a, j, c) == IF j <= Len(a) THEN a ELSE IF c < Len(a) THEN [a EXCEPT ![c + 1] = j] ELSE a
RECURSIVE Runs(_, _, _)
Runs(k, n, j) ==
    IF j = k THEN {<< <<>>, [i \in 1 .. k |-> i]>>}
    ELSE {<<Append(r[1], c), Place(r[2], j, c)>> : r \in Runs(k, n, j - 1), c \in 0 .. j - 1}
Uniform(k, n) ==
    LET rs == Runs(k, n, n)
        c(x) == Cardinality({r \in rs : \E i \in DOMAIN r[2] : r[2][i] = x})
    IN \A x \in 1 .. n : c(x) * n = Cardinality(rs) * k
ASSUME \A k \in {2, 3} : \A n \in k .. k + 3 : Uniform(k, n)
=============================================================================
