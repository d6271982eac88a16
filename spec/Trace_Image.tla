---------------------------- MODULE Trace_Image ----------------------------
EXTENDS Mon, Image
VARIABLES l
Ok(e) == e.err = 0
Judge(e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "crash" -> C("C29", "no-crash:" \o e.in, FALSE)
    [] e.op = "image" ->
         C("C29", "image-written", Ok(e)) \cup
         C("C29", "image-header", Ok(e) => (e.fmt \in Formats /\ Len(e.hdr) = 8 /\ e.len >= 8 /\ Fits(e.fmt, Header(e.fmt, e.hdr))))
    [] e.op = "prefixes" ->
         C("C29", "whole-image-read", Ok(e) /\ e.full = "ok") \cup
         C("C29", "prefixes-refused", Ok(e) /\ PrefixesRefused(e.fmt, e.runs, e.len))
    [] e.op = "header" -> C("C29", "foreign-header-refused:" \o e.field, Ok(e) /\ FaultsRefused(e.outs))
    [] e.op = "foreign" -> C("C29", "foreign-image-refused", Ok(e) /\ e.out = "refused")
Init == l = 1 /\ TLCSet(1, 0)
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
