------------------------------ MODULE MC_Bloom ------------------------------
(* Two compatible filters under every assignment of positions to items.    *)
EXTENDS Bloom, Json
CONSTANTS CAP, NH, P, D, EMIT
VARIABLES f, off, hist
vars == <<f, off, hist>>
view == <<f, off, Len(hist)>>
(* off[i]: positions that only an item offered to filter i could have set, *)
(* kept up under union, so that a filter built by updates alone and the    *)
(* union of two filters can be compared                                    *)
Poss == [1 .. P -> {q \in SUBSET (0 .. CAP - 1) : Cardinality(q) \in 1 .. NH}]
Log(c) == hist' = Append(hist, c)
Init == \E p \in Poss :
    f = [i \in {1, 2} |-> Fresh(CAP, NH, 1, p)] /\ off = [i \in {1, 2} |-> <<{}, TRUE>>] /\ hist = << <<"newb", 1>>, <<"newb", 2>> >>
Next ==
    /\ Len(hist) < D + 2
    /\ \/ \E i \in {1, 2}, x \in 1 .. P : f' = [f EXCEPT ![i] = Upd(@, x)]
            /\ off' = [off EXCEPT ![i] = <<@[1] \cup {x}, @[2]>>] /\ \E o \in (IF EMIT THEN {"upd", "qau"} ELSE {"upd"}) : Log(<<o, i, x>>)
       \/ \E i \in {1, 2}, j \in {1, 2} : f' = [f EXCEPT ![i] = Union(@, f[j])]
            /\ off' = [off EXCEPT ![i] = <<@[1] \cup off[j][1], @[2] /\ off[j][2]>>] /\ Log(<<"union", i, j>>)
       \/ \E i \in {1, 2}, j \in {1, 2} : f' = [f EXCEPT ![i] = Inter(@, f[j])]
            /\ off' = [off EXCEPT ![i] = <<@[1], FALSE>>] /\ Log(<<"inter", i, j>>)
       \/ \E i \in {1, 2} : f' = [f EXCEPT ![i] = Invert(@)] /\ off' = [off EXCEPT ![i] = <<{}, FALSE>>] /\ Log(<<"invert", i>>)
       \/ \E i \in {1, 2} : f' = [f EXCEPT ![i] = Reset(@)] /\ off' = [off EXCEPT ![i] = <<{}, TRUE>>] /\ Log(<<"reset", i>>)
       \/ (EMIT /\ \E i \in {1, 2} : UNCHANGED <<f, off>> /\ Log(<<"ser", 4 + i, i>>))
       \/ (EMIT /\ \E i \in {1, 2} : UNCHANGED <<f, off>> /\ Log(<<"query", i>>))
       \/ (EMIT /\ \E i \in {1, 2} : UNCHANGED <<f, off>> /\ Log(<<"bad", i>>))
Spec == Init /\ [][Next]_vars
Good == \A i \in {1, 2} : NeverForgets(f[i]) /\ InRange(f[i])
(* Built by updates, unions and resets only, a filter is what one stream   *)
(* of all its items gives.                                                 *)
SameAsOneStream == \A i \in {1, 2} : off[i][2] => f[i].in = off[i][1] /\ f[i].bits = UNION {f[i].pos[x] : x \in off[i][1]}
Algebra == LET a == f[1] b == f[2] IN
    /\ Union(a, b).bits = Union(b, a).bits /\ Inter(a, b).bits = Inter(b, a).bits
    /\ Invert(Invert(a)).bits = a.bits
    /\ Invert(Union(a, b)).bits = Inter(Invert(a), Invert(b)).bits
    /\ Used(Invert(a)) = a.cap - Used(a)
    /\ Used(Union(a, b)) + Used(Inter(a, b)) = Used(a) + Used(b)
    /\ \A x \in 1 .. P : Present(Inter(a, b), x) <=> (Present(a, x) /\ Present(b, x))
Emit == (EMIT /\ Len(hist) = D + 2) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
