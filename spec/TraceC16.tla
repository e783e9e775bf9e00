------------------------------ MODULE TraceC16 ------------------------------
(***************************************************************************)
(* Histories of result stores: i.k the kind, i.o the operations; o.r[n]    *)
(* the content after the n-th: m minimum, n indexes, s texts.              *)
(***************************************************************************)
EXTENDS Store, TraceBase

VARIABLES l, k, st
vars == <<l, k, st>>
Init == l = 1 /\ k = 1 /\ st = NoReports

Content(kind, w, s, n) ==
  If(kind \in {"min", "all"} /\ w.m # Minimum(s), "minimum", n)
  \cup If(kind \in {"index", "all"} /\ w.n # Indexes(s), "indexes", n)
  \cup If(kind \in {"string", "all"} /\ w.s # Texts(s), "texts", n)

Skip == l' = l + 1 /\ k' = 1 /\ st' = NoReports

Next ==
  /\ l <= Len(Trace)
  /\ TLCSet(7, l)
  /\ LET r == Trace[l]
     IN IF r.x # "ok" THEN Skip /\ Report(l, Crashed(r))
        ELSE IF k > Len(r.i.o) THEN Skip
        ELSE LET s == After(st, r.i.o[k])
                 d == Content(r.i.k, r.o.r[k], s, k)
                      \* a new store has no reports either
                      \cup (IF k = 1 THEN Content(r.i.k, r.o.z, NoReports, 0) ELSE {})
             IN IF d = {} THEN l' = l /\ k' = k + 1 /\ st' = s ELSE Skip /\ Report(l, d)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet(7) = Len(Trace)
=============================================================================
