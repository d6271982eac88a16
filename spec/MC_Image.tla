------------------------------ MODULE MC_Image ------------------------------
(* Every format, every small image, every fault: the reader refuses iff    *)
(* there is a fault.                                                       *)
EXTENDS Image
CONSTANTS Lens, MaxSecs, Values
VARIABLES fmt, img, fault, n, st
vars == <<fmt, img, fault, n, st>>
Heads == [pre : Values, ver : Values, fam : Values]
Init ==
    /\ fmt \in Formats
    /\ \E k \in 1 .. MaxSecs, p \in Layout(fmt).pres, v \in Layout(fmt).vers : \E ss \in [1 .. k -> Lens] :
         LET x == [hdr |-> [pre |-> p, ver |-> v, fam |-> Layout(fmt).fam], seed |-> 1, secs |-> ss, len |-> 0] IN
         img = [x EXCEPT !.len = Need(x, k)]
    /\ fault = "none" /\ n = 0 /\ st = "new"
Break ==
    /\ st = "new" /\ fault = "none"
    /\ \/ \E t \in 0 .. img.len - 1 : img' = [img EXCEPT !.len = t] /\ fault' = "cut"
       \/ \E v \in Values : v # img.hdr.fam /\ img' = [img EXCEPT !.hdr.fam = v] /\ fault' = "family"
       \/ \E v \in Values : v \notin Layout(fmt).vers /\ img' = [img EXCEPT !.hdr.ver = v] /\ fault' = "version"
       \/ \E v \in Values : v \notin Layout(fmt).pres /\ img' = [img EXCEPT !.hdr.pre = v] /\ fault' = "preamble"
       \/ Layout(fmt).seeded /\ img' = [img EXCEPT !.seed = 2] /\ fault' = "seed"
    /\ UNCHANGED <<fmt, n, st>>
Read ==
    \/ st = "new" /\ st' = Start(fmt, img, 1) /\ UNCHANGED <<fmt, img, fault, n>>
    \/ st = "reading" /\ n' = n + 1 /\ st' = Take(img, n + 1) /\ UNCHANGED <<fmt, img, fault>>
Spec == Init /\ [][Break \/ Read]_vars /\ WF_vars(Read)
NeverPast == n <= Len(img.secs) /\ (st = "reading" => Need(img, n) <= img.len)
Verdict == (st = "read" => fault = "none") /\ (st = "refused" => fault # "none")
Ends == <>(st \in {"read", "refused"})
(* No two families share a number, so no image is read as another.         *)
Family(f) == CASE f \in {"theta1", "theta2", "theta3", "theta4"} -> "theta" [] f \in {"tuple", "numbers"} -> "tuple"
             [] f \in {"longs", "items"} -> "frequencies" [] OTHER -> f
Foreign == \A f, g \in Formats : Family(f) # Family(g) => Layout(f).fam # Layout(g).fam
=============================================================================
