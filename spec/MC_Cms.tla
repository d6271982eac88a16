------------------------------- MODULE MC_Cms -------------------------------
(* Two compatible sketches under every hashing of the items.               *)
EXTENDS Cms, Json
CONSTANTS NB, NH, P, WS, D, EMIT
VARIABLES sk, all, hist
vars == <<sk, all, hist>>
view == <<sk, all, Len(hist)>>
(* all: a third sketch, offered everything that went (also by merging)     *)
(* into the first                                                          *)
Hashings == [1 .. NH -> [1 .. P -> 1 .. NB]]
Log(c) == hist' = Append(hist, c)
Init == \E c \in Hashings :
    sk = [i \in {1, 2} |-> Fresh(NB, NH, 1, c)] /\ all = [i \in {1, 2} |-> <<>>] /\ hist = << <<"newc", 1>>, <<"newc", 2>> >>
Next ==
    /\ Len(hist) < D + 2
    /\ \/ \E i \in {1, 2}, x \in 1 .. P, w \in {u - 2 : u \in WS} :
            sk' = [sk EXCEPT ![i] = Upd(@, x, w)] /\ all' = [all EXCEPT ![i] = Append(@, <<x, w>>)] /\ Log(<<"upd", i, x, w>>)
       \/ \E i \in {1, 2} : sk' = [sk EXCEPT ![i] = Merge(@, sk[3 - i])] /\ all' = [all EXCEPT ![i] = @ \o all[3 - i]] /\ Log(<<"merge", i, 3 - i>>)
       \/ (EMIT /\ \E i \in {1, 2} : UNCHANGED <<sk, all>> /\ Log(<<"ser", 4 + i, i>>))
       \/ (EMIT /\ \E i \in {1, 2} : UNCHANGED <<sk, all>> /\ Log(<<"query", i>>))
       \/ (EMIT /\ \E i \in {1, 2} : UNCHANGED <<sk, all>> /\ Log(<<"mergebad", i>>))
Spec == Init /\ [][Next]_vars
Good == \A i \in {1, 2} : NeverUnder(sk[i]) /\ OverByCollisions(sk[i]) /\ TotalOk(sk[i])
SameAsOneStream == \A i \in {1, 2} : sk[i] = Upds(Fresh(NB, NH, 1, sk[i].cols), all[i])
Emit == (EMIT /\ Len(hist) = D + 2) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
