------------------------------- MODULE Bloom -------------------------------
(***************************************************************************)
(* Bloom filters.  A filter is [cap, nh, seed, pos, bits, in]: pos[x] is   *)
(* the set of bit positions of item x (a property of cap, nh and seed),    *)
(* bits the positions that are set, and in the items that were certainly   *)
(* offered and not removed by an intersection, an inversion or a reset.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fresh(cap, nh, seed, pos) == [cap |-> cap, nh |-> nh, seed |-> seed, pos |-> pos, bits |-> {}, in |-> {}]
Positions(s) == 0 .. s.cap - 1
Upd(s, x) == [s EXCEPT !.bits = @ \cup s.pos[x], !.in = @ \cup {x}]
RECURSIVE Upds(_, _)
Upds(s, xs) == IF xs = <<>> THEN s ELSE Upds(Upd(s, Head(xs)), Tail(xs))
Present(s, x) == s.pos[x] \subseteq s.bits
Union(a, b) == [a EXCEPT !.bits = @ \cup b.bits, !.in = @ \cup b.in]
Inter(a, b) == [a EXCEPT !.bits = @ \cap b.bits, !.in = @ \cap b.in]
Invert(s) == [s EXCEPT !.bits = Positions(s) \ @, !.in = {}]
Reset(s) == [s EXCEPT !.bits = {}, !.in = {}]
Compatible(a, b) == a.cap = b.cap /\ a.nh = b.nh /\ a.seed = b.seed
Used(s) == Cardinality(s.bits)

NeverForgets(s) == \A x \in s.in : Present(s, x)
InRange(s) == s.bits \subseteq Positions(s)
=============================================================================
