------------------------------ MODULE TraceC17 ------------------------------
(***************************************************************************)
(* Matchers shared by goroutines.  i.k the kind; i.one: the first          *)
(* expression of i.a is matched alone, otherwise all i.a are added to a    *)
(* batch matcher; i.s subjects [s text, p tags]; i.z expressions added     *)
(* after the concurrent phase.                                             *)
(* o.ok[n] / o.norm[n] - the n-th of i.a \o i.z was accepted as norm;      *)
(* o.res[n] - the distinct outcomes any call for subject n had [form, c    *)
(* count, r reports]; o.end[n] - outcomes after all additions, by one      *)
(* goroutine.                                                              *)
(*                                                                         *)
(* A matcher has no state that a match changes, so whatever the schedule,  *)
(* every call has the outcome of an isolated one (see SharedMatch).        *)
(***************************************************************************)
EXTENDS Batch, TraceBase

Mean(r, n) == Meaning(r.i.k, (r.i.a \o r.i.z)[n].t).m

Alone(r, w, s, n) ==
  If(w.c # (IF Holds(r.i.k, Mean(r, 1), s.s, s.p) THEN 1 ELSE 0), "outcome of a match", n)

\* N: numbers of the expressions added so far
InBatch(r, w, s, N, n) ==
  LET hits == {<<(r.i.a \o r.i.z)[m].n, r.o.norm[m]>> :
                 m \in {m \in N : r.o.ok[m] /\ Holds(r.i.k, Mean(r, m), s.s, s.p)}}
  IN If(RangeOf(w.r) # hits, "reports of a match", n)
     \cup If(w.c # Len(w.r), "count of a match", n)
     \cup If(r.i.k # "glob" /\ Len(w.r) # Cardinality(hits), "reported twice", n)

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE IF r.i.one
    THEN IF ~r.o.ok[1] THEN {}
         ELSE UNION {UNION {Alone(r, r.o.res[n][m], r.i.s[n], n) : m \in DOMAIN r.o.res[n]} : n \in DOMAIN r.i.s}
    ELSE UNION {UNION {InBatch(r, r.o.res[n][m], r.i.s[n], DOMAIN r.i.a, n) : m \in DOMAIN r.o.res[n]}
                \cup UNION {InBatch(r, r.o.end[n][m], r.i.s[n], 1..Len(r.i.a) + Len(r.i.z), n) : m \in DOMAIN r.o.end[n]}
                : n \in DOMAIN r.i.s}

VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
