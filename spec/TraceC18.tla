------------------------------ MODULE TraceC18 ------------------------------
(* i.g a glob, i.p content of the buffer; o.s the buffer after each sample,  *)
(* o.m - the glob matches the sample                                         *)
EXTENDS Glob, TraceBase

Sample(r, n) == SubSeq(r.o.s[n], Len(r.i.p) + 1, Len(r.o.s[n]))

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET p == Parse(r.i.g)
       IN IF p.ok # r.o.ok THEN {<<"accepted", 0>>}
          ELSE IF ~p.ok THEN {}
          ELSE If(Len(r.o.s) # r.i.n, "number of samples", 0)
               \cup {<<"buffer content", n>> : n \in {n \in DOMAIN r.o.s :
                       ~StartsWith(r.o.s[n], r.i.p)}}
               \cup {<<"not in the language", n>> : n \in {n \in DOMAIN r.o.s :
                       ~Matches(p.e, Sample(r, n))}}
               \cup {<<"not matched", n>> : n \in {n \in DOMAIN r.o.s : ~r.o.m[n]}}


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
