------------------------------ MODULE TraceC01 ------------------------------
(* i.g glob, i.s subjects; o.ok accepted, o.m[n] - Match of the n-th subject *)
EXTENDS Glob, TraceBase

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET p == Parse(r.i.g)
       IN IF p.ok # r.o.ok THEN {<<"accepted", 0>>}
          ELSE IF ~p.ok THEN {}
          ELSE {<<"match", n>> : n \in {n \in DOMAIN r.i.s :
                    r.o.m[n] # Matches(p.e, r.i.s[n])}}

VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
