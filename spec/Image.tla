------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* The serialized images of the library and their readers.  An image is a  *)
(* header of identifying fields followed by sections whose lengths follow  *)
(* from what has been read before.  A reader checks the header, then takes *)
(* the sections in order, each only when all of it is there.  So an image  *)
(* cut short anywhere, one with a header of another family, version or     *)
(* preamble size, and one of another seed are refused; nothing else is.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Byte 0 (low bits): preamble size; byte 1: version; byte 2: family.      *)
L(fam, vers, pres, seeded) == [fam |-> fam, vers |-> vers, pres |-> pres, seeded |-> seeded]
Layout(f) ==
  CASE f = "theta1" -> L(3, {1}, {3}, FALSE)
    [] f = "theta2" -> L(3, {2}, {1, 2, 3}, TRUE)
    [] f = "theta3" -> L(3, {3}, {1, 2, 3}, TRUE)
    [] f = "theta4" -> L(3, {4}, {1, 2}, TRUE)
    [] f = "tuple" -> L(9, {3}, {1, 2, 3}, TRUE)
    [] f = "numbers" -> L(9, {1}, {1}, TRUE)
    [] f = "hll" -> L(7, {1}, {2, 3, 10}, FALSE)
    [] f = "cpc" -> L(16, {1}, {2, 4, 6, 8, 10}, TRUE)
    [] f = "kll" -> L(15, {1, 2}, {2, 5}, FALSE)
    [] f \in {"longs", "items"} -> L(10, {1}, {1, 4}, FALSE)
    [] f = "cms" -> L(18, {1}, {2}, TRUE)
    [] f = "bloom" -> L(21, {1}, {3, 4}, FALSE)
    [] f = "tdigest" -> L(20, {1}, {1, 2}, FALSE)
    [] f = "tdigestold" -> L(0, {0}, {0}, FALSE)
    [] f = "reservoir" -> L(11, {2}, {1, 2}, FALSE)
    [] f = "reservoirunion" -> L(12, {2}, {1}, FALSE)
    [] f = "varopt" -> L(13, {2}, {1, 3, 4}, FALSE)
    [] f = "varoptunion" -> L(14, {2}, {1, 4}, FALSE)
Formats == {"theta1", "theta2", "theta3", "theta4", "tuple", "numbers", "hll", "cpc", "kll", "longs", "items", "cms", "bloom",
            "tdigest", "tdigestold", "reservoir", "reservoirunion", "varopt", "varoptunion"}
(* Preamble sizes share their byte with a resize factor in these.          *)
Low6(f) == f \in {"hll", "reservoir", "reservoirunion", "varopt", "varoptunion", "longs", "items"}

Header(f, b) == [pre |-> IF Low6(f) THEN b[1] % 64 ELSE b[1], ver |-> b[2], fam |-> b[3]]
Fits(f, h) == h.fam = Layout(f).fam /\ h.ver \in Layout(f).vers /\ h.pre \in Layout(f).pres

(* ---- the reader --------------------------------------------------------*)
(* img: [hdr |-> header, seed |-> seed, secs |-> lengths, len |-> bytes there] *)
Need(img, n) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE f(i-1) + img.secs[i] IN f(n)
Start(f, img, seed) ==
    IF img.len < img.secs[1] \/ ~Fits(f, img.hdr) \/ (Layout(f).seeded /\ img.seed # seed) THEN "refused" ELSE "reading"
Take(img, n) == IF img.len < Need(img, n) THEN "refused" ELSE IF n = Len(img.secs) THEN "read" ELSE "reading"

(* ---- what every reader answers -----------------------------------------*)
(* runs: <<from, to, answer>> over the lengths 0 .. len - 1.  The updatable *)
(* images of HLL sketches reserve room for items to come; only a prefix    *)
(* that lacks nothing but such room may be read, as the whole would be.    *)
PrefixesRefused(f, runs, len) ==
    /\ Len(runs) \in {1, 2} /\ runs[1][1] = 0 /\ runs[Len(runs)][2] = len - 1
    /\ runs[1][3] = "refused" /\ runs[1][2] >= 7
    /\ Len(runs) = 2 => (f = "hll" /\ runs[2][1] = runs[1][2] + 1 /\ runs[2][3] = "same")
FaultsRefused(outs) == \A i \in DOMAIN outs : outs[i][2] = "refused"
=============================================================================
