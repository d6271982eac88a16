------------------------------ MODULE MC_Iso --------------------------------
(* The discipline behind isolation: sketches, results, copies, images and   *)
(* slices held by the caller live in cells; every call works in its         *)
(* target's own cell, and whatever it hands out or takes in is copied to a  *)
(* fresh one.  Then no two holders share a cell, and a step changes what is *)
(* observed of its target only.  A view kept by the object (the cache of a  *)
(* query) is a cell nobody else holds, dropped when the object changes.     *)
EXTENDS Naturals, FiniteSets

CONSTANTS Objs, Bufs, MaxV
Holders == Objs \cup Bufs
Cells == 1..(Cardinality(Holders) + Cardinality(Objs))
Vals == SUBSET (1..MaxV)

VARIABLES hold, cache, mem, tgt
vars == <<hold, cache, mem, tgt>>

Held == {hold[h] : h \in Holders} \cup {cache[o] : o \in Objs}
Fresh == CHOOSE c \in Cells : c \notin Held
Live(h) == hold[h] # 0
Val(h) == mem[hold[h]]

Init ==
    /\ hold = [h \in Holders |-> 0]
    /\ cache = [o \in Objs |-> 0]
    /\ mem = [c \in Cells |-> {}]
    /\ tgt = 0

(* cells nobody holds are forgotten *)
Keep(hd, ca, m) == [c \in Cells |-> IF c \in {hd[h] : h \in Holders} \cup {ca[o] : o \in Objs} THEN m[c] ELSE {}]
Set(h, hd, ca, m) == hold' = hd /\ cache' = ca /\ mem' = Keep(hd, ca, m) /\ tgt' = h

Put(h, v) ==        \* a new holder of v
    /\ ~Live(h)
    /\ Set(h, [hold EXCEPT ![h] = Fresh], cache, [mem EXCEPT ![Fresh] = v])
Change(o, v) ==     \* the object's own cell is written, its cache dropped
    /\ Live(o)
    /\ Set(o, hold, [cache EXCEPT ![o] = 0], [mem EXCEPT ![hold[o]] = v])
Drop(h) ==
    /\ Live(h)
    /\ Set(h, [hold EXCEPT ![h] = 0], IF h \in Objs THEN [cache EXCEPT ![h] = 0] ELSE cache, mem)

Next ==
    \/ \E o \in Objs : Put(o, {})                                             \* create
    \/ \E o \in Objs, x \in 1..MaxV : Live(o) /\ Change(o, Val(o) \cup {x})   \* update
    \/ \E o \in Objs : Change(o, {})                                          \* reset
    \/ \E o, s \in Objs : Live(o) /\ Live(s) /\ Change(o, Val(o) \cup Val(s)) \* merge, self included
    \/ \E o \in Objs, h \in Holders : Live(o) /\ Put(h, Val(o))               \* copy, result, image, slice handed out
    \/ \E b \in Bufs, o \in Objs : Live(b) /\ Put(o, Val(b))                  \* restore
    \/ \E b \in Bufs, v \in Vals : Live(b) /\ Set(b, hold, cache, [mem EXCEPT ![hold[b]] = v])  \* the caller writes
    \/ \E o \in Objs : Live(o) /\ cache[o] = 0
           /\ Set(0, hold, [cache EXCEPT ![o] = Fresh], [mem EXCEPT ![Fresh] = Val(o)])         \* a query
    \/ \E h \in Holders : Drop(h)

Spec == Init /\ [][Next]_vars

Apart == \A h, g \in Holders : h # g /\ Live(h) => hold[h] # hold[g]
CacheApart == \A o \in Objs : cache[o] # 0 => cache[o] \notin {hold[h] : h \in Holders}
                                  /\ \A p \in Objs : p # o => cache[p] # cache[o]
CacheTrue == \A o \in Objs : cache[o] # 0 => Live(o) /\ mem[cache[o]] = Val(o)
OnlyTheTarget == [][\A h \in Holders : h # tgt' /\ Live(h) => hold'[h] = hold[h] /\ mem'[hold[h]] = Val(h)]_vars
=============================================================================
