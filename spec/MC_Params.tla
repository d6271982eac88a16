------------------------------ MODULE MC_Params ------------------------------
(***************************************************************************)
(* An object from its construction on: it is refused, or it lives under    *)
(* its parameters, and its family's way of making room keeps it within the *)
(* size they promise.  Parameters range over every border of every range.  *)
(***************************************************************************)
EXTENDS Params, FiniteSets, TLC
CONSTANTS Top      \* objects are fed until they hold this many entries
VARIABLES kind, p, st, rep, size
vars == <<kind, p, st, rep, size>>

Around(S) == {v + d : v \in S, d \in {0 - 1, 0, 1}}
Fracs == {<<0 - 1, 0>>, <<0 - 1, 1>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<500000, 0>>, <<999999, 1>>, <<1000000, 0>>, <<1000000, 1>>, <<2000000, 0>>}
Given(k) ==
  CASE k \in Sampled -> {<<lg, f[1], f[2], rf, 1>> : lg \in Around({5, 26}), f \in Fracs, rf \in 0 .. 3}
    [] k \in {"cpc", "cpcU"} -> {<<x>> : x \in Around({4, 26})}
    [] k = "hll" -> {<<x, t>> : x \in Around({4, 21}), t \in 0 .. 2}
    [] k = "hllU" -> {<<x>> : x \in Around({4, 21})}
    [] k = "kll" -> {<<x, m, c>> : x \in Around({8, 65535}) \cup {200}, m \in 0 .. 10, c \in {0, 1}}
    [] k = "req" -> {<<x, h>> : x \in Around({4, 12, 1024}), h \in {0, 1}}
    [] k = "tdig" -> {<<x>> : x \in Around({10, 30, 65535})}
    [] k = "freq" -> {<<x, y>> : x \in 0 - 1 .. 5, y \in 0 - 1 .. 5}
    [] k = "freqM" -> {<<x>> : x \in 0 - 1 .. 33}
    [] k = "cms" -> {<<h, b, 7>> : h \in {0 - 1, 0, 1, 2, 127}, b \in Around({3, 1073741824 \div 127, 536870912}) \cup {0 - 1, 0}}
    [] k = "bloom" -> {<<w, b, n, 9>> : w \in {0, 1, 2147483642, 2147483643, 2147483644}, b \in {0, 1, 63}, n \in {0, 1, 65535}}
    [] k = "bloomA" -> {<<n, f[1], f[2]>> : n \in {0, 1, 1000}, f \in Fracs}
    [] k = "resv" \/ k = "vopt" -> {<<x, rf>> : x \in 0 - 1 .. 4, rf \in 0 .. 3}
    [] k = "resvU" \/ k = "voptU" -> {<<x>> : x \in (0 - 1 .. 4) \cup {2147483646, 2147483647}}

(* One more distinct entry: how each family makes room for it.             *)
Room(k, q, n) ==
  CASE k \in {"theta", "tuple", "nums"} ->
         LET cap == (15 * Pow2(q[1] + 1)) \div 16 IN {IF n + 1 > cap THEN Pow2(q[1]) ELSE n + 1}
    [] k \in {"thetaU", "tupleU", "numsU"} -> {IF n + 1 > Pow2(q[1]) THEN Pow2(q[1]) ELSE n + 1}
    [] k \in {"freq", "freqM"} -> LET cap == Most(k, q) IN IF n + 1 > cap THEN 0 .. n \div 2 ELSE {n + 1}
    [] k \in {"resv", "resvU", "vopt"} -> {IF n + 1 > q[1] THEN q[1] ELSE n + 1}
    [] k = "voptU" -> IF n + 1 > q[1] THEN 1 .. q[1] ELSE {n + 1}
    [] OTHER -> {n}

Init == kind \in Kinds /\ p \in Given(kind) /\ st = "asked" /\ rep = <<>> /\ size = 0
Make == /\ st = "asked" /\ UNCHANGED <<kind, p, size>>
        /\ IF Accepts(kind, p) THEN st' = "live" /\ rep' = Reports(kind, p) ELSE st' = "refused" /\ rep' = <<>>
Feed == st = "live" /\ size < Top /\ size' \in Room(kind, p, size) /\ UNCHANGED <<kind, p, st, rep>>
Reset == st = "live" /\ size' = 0 /\ UNCHANGED <<kind, p, st, rep>>
Spec == Init /\ [][Make \/ Feed \/ Reset]_vars

Within == st = "live" /\ kind \in Bounded => size <= Most(kind, p)
Stable == st = "live" => rep = Reports(kind, p)
(* Every range is closed by borders that are refused; none is empty.       *)
Borders == st = "asked" =>
  /\ \E q \in Given(kind) : Accepts(kind, q)
  /\ (kind # "freq" => \E q \in Given(kind) : ~Accepts(kind, q))
(* No accepted object has room for nothing.                                *)
SomeRoom == st = "live" /\ kind \in Bounded => Most(kind, p) >= 1
=============================================================================
