----------------------------- MODULE TraceBatch -----------------------------
(***************************************************************************)
(* Histories of the batch matchers.  Each record is one history: i.kind,   *)
(* i.ops the operations, o.r their results.                                *)
(*   add  - i.t the text, i.n the index                                    *)
(*   addp - the same with an expression parsed beforehand                  *)
(*   match - i.s the subject text / i.p the tag set                        *)
(* Results: e error ("" none), n, norm as returned; pok, pn - acceptance   *)
(* and normal form when parsed alone; r1 c1 / r2 c2 - reports and count of *)
(* the two forms of matching (two: the second form was used); ind1 / ind2  *)
(* - indexes of the added expressions that match alone (two forms);        *)
(* by / ix the registry after the operation (when i.reg).                  *)
(***************************************************************************)
EXTENDS Batch, TraceBase

IsAdd(op) == op.k \in {"add", "addp"}

AddDevs(kind, reg, op, o) ==
  LET m == Meaning(kind, op.t)
      text == Raw(kind, op.k, op.t, o.pn)
      why == Why(kind, reg, op.k, op.t, o.pn, op.n)
  IN IF m.ok # o.pok THEN {<<"parsed alone", 0>>}
     ELSE IF Nothing(kind, op.k, op.t) THEN If(o.e # "" \/ o.n # 0 \/ o.norm # <<>>, "empty expression", 0)
     ELSE IF why = {}
       THEN If(o.e # "", "rejected: " \o o.e, 0)
            \cup If(o.e = "" /\ o.n # op.n, "returned index", 0)
            \cup If(o.e = "" /\ o.norm # o.pn, "returned normalized text", 0)
       ELSE IF o.e = "" THEN {<<"accepted", 0>>}
            ELSE If(o.e \notin why, "wrong reason: " \o o.e, 0)
                 \cup If(o.e = "exist" /\ o.n \notin Known(reg, text, o.pn), "index of the known", 0)

Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}

\* reports of one form of matching
RepDevs(kind, want, r, c, ind, tag) ==
  If(RangeOf(r) # want, tag \o " reports", 0)
  \cup If(c # Len(r), tag \o " count", 0)
  \cup If(kind # "glob" /\ Cardinality(RangeOf(r)) # Len(r), tag \o " reports twice", 0)
  \cup If({x[1] : x \in RangeOf(r)} # RangeOf(ind), tag \o " differs from single matching", 0)

MatchDevs(kind, reg, op, o) ==
  LET want == Hits(kind, reg, op.s, op.p)
  IN RepDevs(kind, want, o.r1, o.c1, o.ind1, "first form")
     \cup (IF ~o.two THEN {} ELSE RepDevs(kind, want, o.r2, o.c2, o.ind2, "second form"))

RegAfter(kind, reg, op, o) ==
  IF IsAdd(op) THEN AfterAdd(kind, reg, op.k, op.t, o.pn, op.n) ELSE reg

Devs(r, reg, op, o, after) ==
  (IF IsAdd(op) THEN AddDevs(r.i.kind, reg, op, o) ELSE MatchDevs(r.i.kind, reg, op, o))
  \cup (IF ~r.i.reg THEN {}
        ELSE If(RangeOf(o.by) # Pairs(after.by), "registered texts", 0)
             \cup If(RangeOf(o.ix) # Pairs(after.ix), "registered indexes", 0))

VARIABLES l,    \* record
          k,    \* operation of the record
          reg   \* registry of the specification
vars == <<l, k, reg>>

Init == l = 1 /\ k = 1 /\ reg = NoReg

Skip == l' = l + 1 /\ k' = 1 /\ reg' = NoReg

Next ==
  /\ l <= Len(Trace)
  /\ TLCSet(7, l)
  /\ LET r == Trace[l]
     IN IF r.x # "ok" THEN Skip /\ Report(l, Crashed(r))
        ELSE IF k > Len(r.i.ops) THEN Skip
        ELSE LET op == r.i.ops[k]
                 o == r.o.r[k]
                 after == RegAfter(r.i.kind, reg, op, o)
                 d == Devs(r, reg, op, o, after)
             IN IF d = {}
                THEN l' = l /\ k' = k + 1 /\ reg' = after
                ELSE Skip /\ Report(l, {<<x[1], k>> : x \in d})

Spec == Init /\ [][Next]_vars

Inv == RegistryOK(reg)
Accepted == TLCGet(7) = Len(Trace)
=============================================================================
