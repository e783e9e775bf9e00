------------------------------ MODULE TraceC08 ------------------------------
(* i.q a query text (i.l: i.c is a list of conditions instead), i.v other    *)
(* spellings of it; o.ok accepted, o.t the terms, o.norm the normalized      *)
(* text, o.nok / o.nt - acceptance and terms of the normalized text, o.nn    *)
(* its own normalized text, o.vok / o.vn - acceptance and normalized texts   *)
(* of the other spellings, o.s the texts of the terms                        *)
EXTENDS Series, TraceBase

T(x) == [k |-> x.k, o |-> x.o, v |-> x.v]

\* a text with both kinds of quotes in a term cannot be written down again
Writable(ts) == \A i \in DOMAIN ts :
  ~(Has(ts[i].k \o ts[i].v, SQUOTE) /\ Has(ts[i].k \o ts[i].v, DQUOTE))

\* terms read back from the normalized text by the specification
ReadBack(norm, t) ==
  LET q == Query(norm) IN q.st # "bad" /\ SameTerms(q.t, t)

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET q == IF r.i.l THEN Conditions(r.i.c) ELSE Query(r.i.q)
           t == [i \in DOMAIN r.o.t |-> T(r.o.t[i])]
       IN IF q.st = "unknown" /\ ~r.o.ok THEN {}
          ELSE IF (q.st # "bad") # r.o.ok THEN {<<"accepted", 0>>}
          ELSE IF ~r.o.ok THEN {}
          ELSE If(~SameTerms(q.t, t), "terms", 0)
               \cup If(~Sorted(t), "order of the terms", 0)
               \cup (IF ~Writable(t) THEN {}
                     ELSE If(~r.o.nok, "normalized text is rejected", 0)
                          \cup If(r.o.nok /\ ~SameTerms(t, [i \in DOMAIN r.o.nt |-> T(r.o.nt[i])]),
                                  "normalized text reads differently", 0)
                          \cup If(~ReadBack(r.o.norm, t), "normalized text", 0))
               \cup {<<"text of a term", n>> : n \in {n \in DOMAIN t :
                         LET z == Conditions(<<r.o.s[n]>>)
                         IN z.st = "bad" \/ (z.st = "ok" /\ ~SameTerms(z.t, <<t[n]>>))}}
               \cup {<<"other spelling", n>> : n \in {n \in DOMAIN r.i.v :
                         ~r.o.vok[n] \/ r.o.vn[n] # r.o.norm}}


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
