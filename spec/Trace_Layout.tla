---------------------------- MODULE Trace_Layout ----------------------------
EXTENDS Mon, Layout
VARIABLES l
(* written: by the library, of the content queried; read: the content the  *)
(* library finds in an image; rewritten: what it writes of one it has read; *)
(* made: an image of another writer, as the harness builds it.             *)
Judge(e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "crash" -> C("C31", "no-crash:" \o e.in, FALSE)
    [] e.op \in {"written", "read", "rewritten", "made"} ->
         C("C31", e.op \o ":" \o e.fmt, e.err = 0 /\ Is(e.fmt, e.c, e.img))
Init == l = 1 /\ TLCSet(1, 0)
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
