------------------------------ MODULE TraceC21 ------------------------------
(* i.g a glob (i.d: dotted); o.min, o.max the reported bounds                *)
EXTENDS Dotted, TraceBase

StarIn(e) == \E i \in DOMAIN e :
   \/ e[i].k = "star"
   \/ e[i].k = "alt" /\ \E j \in DOMAIN e[i].a :
        \E k \in DOMAIN e[i].a[j] : e[i].a[j][k].k = "star"

\* lo, hi: the exact bounds of the language; star: contains *
Bounded(r, lo, hi, star) ==
  If(r.o.min > lo, "minimum", lo)
  \cup If(r.o.max # INF /\ (hi = INF \/ r.o.max < hi), "maximum", hi)
  \cup If(star /\ r.o.max # INF, "star is not unlimited", 0)

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE IF r.i.d
    THEN LET d == DParse(r.i.g)
         IN IF d.ok # r.o.ok THEN {<<"accepted", 0>>}
            ELSE IF ~d.ok \/ d.l = <<>> THEN {}
            ELSE Bounded(r, DMin(d.l), DMax(d.l), \E i \in DOMAIN d.l : StarIn(d.l[i]))
    ELSE LET p == Parse(r.i.g)
         IN IF p.ok # r.o.ok THEN {<<"accepted", 0>>}
            ELSE IF ~p.ok THEN {}
            ELSE Bounded(r, MinLen(p.e), MaxLen(p.e), StarIn(p.e))


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
