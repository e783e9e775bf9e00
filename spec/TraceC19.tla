------------------------------ MODULE TraceC19 ------------------------------
(* i.s a text, i.n a number, i.g texts, i.b texts already in the reused      *)
(* slice; the outputs are named in Judge                                     *)
EXTENDS Helpers, TraceBase

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET s == r.i.s  o == r.o  ls == Levels(s)  ok == ls # <<>> /\ NoEmpty(ls)
       IN If(o.path # DropTrailingDot(s) \/ o.level # LevelCount(s), "level count", 0)
          \cup If(o.parts # ls, "split", 0)
          \cup If(o.bok # ok, "split into a slice", 0)
          \cup If(ok /\ o.bparts # ls, "split into a slice", 1)
          \cup If(o.empty # ~NoEmpty(ls), "empty parts", 0)
          \cup If(o.gempty # ~NoEmpty(r.i.g), "empty parts", 1)
          \cup UNION {LET w == o.w[k]
                      IN If(w.count # CountOfWild(s), "wildcard count", k)
                         \cup If(w.has # (WildAt(s) # {}), "wildcard detection", k)
                         \cup If(w.ix # IndexOfWild(s), "wildcard position", k)
                         \cup If(w.lx # LastIndexOfWild(s), "last wildcard position", k)
                      : k \in DOMAIN o.w}
          \cup If(o.skip # Skipped(s, r.i.n), "skip", r.i.n)
          \cup If(o.last # SkippedLast(s, r.i.n), "skip from the end", r.i.n)
          \cup If(o.common # CommonLiteral(r.i.g), "common literal prefix", 0)
          \cup If(o.clone # s, "copy", 0)
          \cup If(r.i.n <= Len(s) /\ o.cut # <<To(s, r.i.n), From(s, r.i.n + 1)>>, "cut", r.i.n)
          \cup If(o.less # MinI(r.i.n, Len(ls)), "minimum", 0)
          \cup If(o.eq # (r.i.g = r.i.b), "equality", 0)
          \cup {<<"element", k>> : k \in {k \in DOMAIN r.i.b : o.in[k] # (r.i.b[k] \in RangeOf(r.i.g))}}

VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
