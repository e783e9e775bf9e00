------------------------------ MODULE TraceC09 ------------------------------
(* i.c the conditions of a query, i.p tag sets (sequences of pairs, __name__ *)
(* first, then by key); o.m / o.mm match of the slice and of the map form,   *)
(* o.e[n][j] - term j (in the order of the query) against the value of its   *)
(* tag, where o.h[n][j] says the tag set has it                              *)
EXTENDS Series, TraceBase

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET q == Conditions(r.i.c)
       IN IF q.st = "unknown" THEN {}
          ELSE IF (q.st = "ok") # r.o.ok THEN {<<"accepted", 0>>}
          ELSE IF ~r.o.ok THEN {}
          ELSE UNION {LET m == AllSatisfied(q.t, r.i.p[n])
                      IN If(r.o.m[n] # m, "slice form", n)
                         \cup If(r.o.mm[n] # m, "map form", n)
                      : n \in DOMAIN r.i.p}


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
