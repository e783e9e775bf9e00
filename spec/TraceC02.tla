------------------------------ MODULE TraceC02 ------------------------------
(* i.s any text; o.p / o.m - accepted as a glob by the two forms of parsing, *)
(* o.g / o.gm - accepted as a dotted glob                                    *)
EXTENDS Dotted, TraceBase

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET p == Parse(r.i.s).ok
           d == DParse(r.i.s).ok
       IN If(r.o.p # p, "glob.Parse", 0) \cup If(r.o.m # p, "glob.ParseMust", 0)
          \cup If(r.o.g # d, "gglob.Parse", 0) \cup If(r.o.gm # d, "gglob.ParseMust", 0)


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
