------------------------------ MODULE TraceC14 ------------------------------
(***************************************************************************)
(* Histories of expansions of one parsed expression.  i.s the expression,  *)
(* i.c the calls [m max, d depth, t try]; o.r[n] results of the n-th call  *)
(* on the same parsed expression, o.f[n] of a call that parses it anew.    *)
(* The parsed expression has no state the results may depend on.           *)
(***************************************************************************)
EXTENDS Expand, TraceBase

\* with a positive limit never more results than it says
WithinLimit(c, rs) == c.m > 0 => Len(rs) <= c.m

VARIABLES l, k
vars == <<l, k>>
Init == l = 1 /\ k = 1

Call(r, n) ==
  LET c == r.i.c[n]
      want == Expanded(r.i.s, c.m, c.d, c.t)
  IN If(r.o.r[n] # want, "repeated expansion", n)
     \cup If(r.o.f[n] # want, "fresh expansion", n)
     \cup If(~WithinLimit(c, r.o.r[n]), "limit exceeded", n)
     \cup If(c.t /\ Len(r.o.r[n]) # 1, "try gives one result", n)
     \cup If(r.o.e[n], "error", n)

Skip == l' = l + 1 /\ k' = 1

Next ==
  /\ l <= Len(Trace)
  /\ TLCSet(7, l)
  /\ LET r == Trace[l]
     IN IF r.x # "ok" THEN Skip /\ Report(l, Crashed(r))
        ELSE IF k > Len(r.i.c) THEN Skip
        ELSE LET d == Call(r, k)
             IN IF d = {} THEN l' = l /\ k' = k + 1 ELSE Skip /\ Report(l, d)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet(7) = Len(Trace)
=============================================================================
