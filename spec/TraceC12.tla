------------------------------ MODULE TraceC12 ------------------------------
(* i.s bytes, i.b content of the buffers; o.p / o.q escaped forms, o.pt /    *)
(* o.qt buffers after escaping into them, o.u unescaped, o.ut what the       *)
(* buffer variant returns and o.ub the buffer afterwards, o.n / o.nt name    *)
(* and name tag, o.nb the buffer afterwards, o.up / o.uq the escaped forms   *)
(* unescaped                                                                 *)
EXTENDS Escape, TraceBase

NAMEEQ == <<95,95,110,97,109,101,95,95,61>>                  \* __name__=

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET s == r.i.s  b == r.i.b  u == Unescape(s)
       IN If(r.o.p # EscPath(s), "path escaping", 0)
          \cup If(r.o.q # EscQuery(s), "query escaping", 0)
          \cup If(~WellEscaped(r.o.p, PathSafe), "unsafe path", 0)
          \cup If(~WellEscaped(r.o.q, QuerySafe), "unsafe query", 0)
          \cup If(r.o.pt # b \o EscPath(s), "path escaping to a buffer", 0)
          \cup If(r.o.qt # b \o EscQuery(s), "query escaping to a buffer", 0)
          \cup If(r.o.u # u, "unescaping", 0)
          \cup If(r.o.ut # u, "unescaping to a buffer", 0)
          \cup If(r.o.ub \notin {b, b \o u}, "buffer after unescaping", 0)
          \cup If(r.o.n # u, "name", 0)
          \cup If(r.o.nt # NAMEEQ \o u, "name tag", 0)
          \cup If(r.o.nb # b \o NAMEEQ \o u, "buffer after the name tag", 0)
          \cup If(r.o.uq # s, "query round trip", 0)
          \cup If(~Has(s, PLUSB) /\ r.o.up # s, "path round trip", 0)


VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
