------------------------------ MODULE TraceC05 ------------------------------
(* i.g a dotted glob, i.s paths; o.m Match of each path, o.u - split parts   *)
(* were matched too: o.p without and o.pl with the length of the path        *)
EXTENDS Dotted, TraceBase

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET d == DParse(r.i.g)
       IN IF d.ok # r.o.ok THEN {<<"accepted", 0>>}
          ELSE IF ~d.ok THEN {}
          ELSE UNION {LET m == DMatches(d.l, r.i.s[n])
                      IN If(r.o.m[n] # m, "match", n)
                         \cup If(r.o.u[n] # (r.i.s[n] # <<>> /\ NoEmpty(Levels(r.i.s[n]))), "harness split", n)
                         \cup If(r.o.u[n] /\ r.o.p[n] # m, "match by parts", n)
                         \cup If(r.o.u[n] /\ r.o.pl[n] # m, "match by parts with length", n)
                      : n \in DOMAIN r.i.s}


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
