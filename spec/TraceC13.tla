------------------------------ MODULE TraceC13 ------------------------------
(* i.s an expression; o.r its unlimited expansion                            *)
EXTENDS ExpandLang, TraceBase

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE If(r.o.e, "error", 0)
       \cup If(r.o.r # Expanded(r.i.s, -1, 0, FALSE), "results", 0)
       \cup If(~Language(r.i.s, r.o.r), "language", 0)


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
