------------------------------ MODULE TraceC11 ------------------------------
(* i.s a path (bytes), i.g graphite format, i.old content of the reused map; *)
(* o.t / o.e slice form and its error, o.m / o.me new map, o.b / o.be reused *)
(* map, o.c map made of the slice                                            *)
EXTENDS TagPath, TraceBase

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET d == IF r.i.g THEN DecodePath(r.i.s, 59, 59) ELSE DecodePath(r.i.s, 63, 38)
           m == MapOf(d.tags)
       IN If(r.o.e # d.err, "error of the slice form", 0)
          \cup If(r.o.me # d.err, "error of the map form", 0)
          \cup If(r.o.be # d.err, "error of the reused map form", 0)
          \cup If(~d.err /\ r.o.t # d.tags, "tags", 0)
          \cup If(~d.err /\ RangeOf(r.o.m) # m, "map", 0)
          \cup If(~d.err /\ RangeOf(r.o.b) # m, "reused map", 0)
          \cup If(RangeOf(r.o.c) # MapOf(r.o.t), "map of the slice", 0)
          \cup If(r.o.t = <<>> \/ r.o.t[1] # d.tags[1], "name", 0)


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
