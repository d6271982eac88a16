------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameters every constructor takes: which are accepted, what an     *)
(* object built from them reports for the rest of its life, and how large  *)
(* it may become.  A parameter vector is a sequence of integers:           *)
(*   theta thetaU tuple tupleU  lgK, p, resize factor                      *)
(*   nums numsU                 lgK, p, resize factor, values per summary  *)
(*   cpc cpcU hllU lgK;  hll lgK, type;  kll k, m, comparator given        *)
(*   req k, high ranks;  tdig k;  resv vopt k, resize factor;  resvU voptU k*)
(*   freq lg of the largest and the first map;  freqM largest map          *)
(*   cms hashes, buckets, seed;  bloom words, further bits, hashes, seed   *)
(*   bloomA items, rate                                                    *)
(* Fractions are given as <<floor in millionths, 1 if that is not all>>,   *)
(* and so take two places.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pow2(n) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 1 ELSE 2 * f(i - 1) IN f(n)
Max2(a, b) == IF a > b THEN a ELSE b
IsPow2(n) == n >= 1 /\ \E i \in 0 .. 30 : n = Pow2(i)
M == 1000000
AboveZero(lo, more) == lo > 0 \/ (lo = 0 /\ more = 1)
AtMostOne(lo, more) == lo < M \/ (lo = M /\ more = 0)
BelowOne(lo, more) == lo < M
Sampled == {"theta", "thetaU", "tuple", "tupleU", "nums", "numsU"}
Kinds == Sampled \cup {"cpc", "cpcU", "hll", "hllU", "kll", "req", "tdig", "freq", "freqM", "cms", "bloom", "bloomA", "resv", "resvU", "vopt", "voptU"}

Accepts(kind, p) ==
  CASE kind \in Sampled -> p[1] \in 5 .. 26 /\ AboveZero(p[2], p[3]) /\ AtMostOne(p[2], p[3])
    [] kind \in {"cpc", "cpcU"} -> p[1] \in 4 .. 26
    [] kind \in {"hll", "hllU"} -> p[1] \in 4 .. 21
    [] kind = "kll" -> p[1] \in 8 .. 65535 /\ p[2] \in {2, 4, 6, 8} /\ p[3] = 1
    [] kind = "req" -> p[1] \in 4 .. 1024 /\ p[1] % 2 = 0
    [] kind = "tdig" -> p[1] \in 10 .. 65535
    [] kind = "freq" -> TRUE
    [] kind = "freqM" -> IsPow2(p[1])
    [] kind = "cms" -> p[1] >= 1 /\ p[2] >= 3 /\ p[2] <= (Pow2(30) - 1) \div p[1]
    [] kind = "bloom" -> p[3] > 0 /\ (p[1] > 0 \/ p[2] > 0) /\ (p[1] < 2147483643 \/ (p[1] = 2147483643 /\ p[2] = 0))
    [] kind = "bloomA" -> p[1] > 0 /\ AboveZero(p[2], p[3]) /\ BelowOne(p[2], p[3])
    [] kind \in {"resv", "resvU"} -> p[1] >= 2
    [] kind \in {"vopt", "voptU"} -> p[1] >= 1 /\ p[1] <= 2147483646

Capacity(lg) == (3 * Pow2(Max2(lg, 3))) \div 4
Lg(n) == CHOOSE i \in 0 .. 30 : n = Pow2(i)
(* What an object reports of its parameters, always.                       *)
Reports(kind, p) ==
  CASE kind \in {"theta", "tuple"} -> <<p[1], p[4]>>
    [] kind = "nums" -> <<p[1], p[4], p[5]>>
    [] kind \in {"cpc", "cpcU", "hllU", "tdig", "resv", "resvU", "vopt", "kll"} -> <<p[1]>>
    [] kind \in {"hll", "req"} -> <<p[1], p[2]>>
    [] kind = "freq" -> <<Capacity(p[1])>>
    [] kind = "freqM" -> <<Capacity(Lg(p[1]))>>
    [] kind = "cms" -> <<p[1], p[2], p[3]>>
    [] kind = "bloom" -> <<p[1] + (IF p[2] > 0 THEN 1 ELSE 0), p[3], p[4]>>
    [] OTHER -> <<>>
(* How many entries it may come to hold (unbounded kinds: nothing said).   *)
Bounded == Sampled \cup {"freq", "freqM", "resv", "resvU", "vopt", "voptU", "tdig", "hll", "hllU"}
Most(kind, p) ==
  CASE kind \in {"theta", "tuple", "nums"} -> (15 * Pow2(p[1] - 2)) \div 2     \* fifteen sixteenths of twice the nominal number
    [] kind \in {"thetaU", "tupleU", "numsU"} -> Pow2(p[1])
    [] kind = "freq" -> Capacity(p[1])
    [] kind = "freqM" -> Capacity(Lg(p[1]))
    [] kind \in {"resv", "resvU", "vopt", "voptU"} -> p[1]
    [] kind = "tdig" -> 2 * p[1] + (IF p[1] < 30 THEN 30 ELSE 10)              \* centroids
    [] kind \in {"hll", "hllU"} -> 40 + Pow2(p[1])                             \* bytes of a dense 8-bit image, the largest
=============================================================================
