------------------------------ MODULE TraceC03 ------------------------------
(* i.g a glob (i.d: dotted), i.v other spellings of it; o.node its normal    *)
(* form, o.str its text, o.nok - the normal form is accepted, o.vok / o.vn - *)
(* acceptance and normal forms of the other spellings                        *)
EXTENDS Dotted, GlobLang, TraceBase

SameGlob(a, b) ==
  IF ~b.ok THEN {<<"normalized text is malformed", 0>>}
  ELSE If(LangCompare(a.e, b.e) = "different", "language differs", 0)

SameDotted(a, b) ==
  IF ~b.ok THEN {<<"normalized text is malformed", 0>>}
  ELSE IF Len(a.l) # Len(b.l) THEN {<<"levels differ", 0>>}
  ELSE {<<"language differs", n>> : n \in {n \in DOMAIN a.l :
            LangCompare(a.l[n], b.l[n]) = "different"}}

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET d == r.i.d
           a == IF d THEN DParse(r.i.g) ELSE Parse(r.i.g)
       IN IF a.ok # r.o.ok THEN {<<"accepted", 0>>}
          ELSE IF ~a.ok THEN {}
          ELSE (IF d THEN SameDotted(a, DParse(r.o.node)) ELSE SameGlob(a, Parse(r.o.node)))
               \cup If(~r.o.nok, "normalized text is rejected", 0)
               \cup If(r.o.str # r.o.node, "text differs from the normalized text", 0)
               \cup {<<"other spelling", n>> : n \in {n \in DOMAIN r.i.v :
                         ~r.o.vok[n] \/ r.o.vn[n] # r.o.node}}


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
