------------------------------ MODULE TraceC22 ------------------------------
(***************************************************************************)
(* Items composed one by one (i.k):                                        *)
(* "items": the items of globs i.g appended in a row to a list and to a    *)
(*   chain; o.str[k] the list printed after k globs, o.m[k][n] whether it  *)
(*   then matches i.s[n], o.cstr / o.min / o.max text and bounds of the    *)
(*   chain, o.eq equality with the list made of i.u (if o.uok)             *)
(* "text": text item i.t, changed by i.o; o.str[k] printed after k changes *)
(* "find": the child equal to item i.t, reversed or not (i.v), looked for  *)
(*   among items i.g with flags i.r; o.at its number, 0 - none             *)
(***************************************************************************)
EXTENDS GlobLang, TraceBase

Chained(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
AllOK(ps) == \A k \in DOMAIN ps : ps[k].ok
Elements(ps, n) == Chained([k \in 1..n |-> ps[k].e])

Differ(text, e) == LET p == Parse(text) IN ~p.ok \/ LangCompare(p.e, e) = "different"

ItemsJudge(r) ==
  LET ps == [k \in DOMAIN r.i.g |-> Parse(r.i.g[k])]
      us == [k \in DOMAIN r.i.u |-> Parse(r.i.u[k])]
      o == r.o
  IN IF AllOK(ps) # o.ok THEN {<<"accepted", 0>>}
     ELSE IF ~o.ok THEN {}
     ELSE LET E == [k \in DOMAIN ps |-> Elements(ps, k)]
              all == Elements(ps, Len(ps))
              ul == Elements(us, Len(us))
          IN UNION {If(Differ(o.str[k], E[k]), "composed list", k)
                    \cup UNION {If(o.m[k][n] # Matches(E[k], r.i.s[n]), "match", n) : n \in DOMAIN r.i.s} : k \in DOMAIN ps}
             \cup If(Differ(o.cstr, all), "chain", 0)
             \cup If(o.min > MinLen(all), "minimum length", 0)
             \cup If(o.max # -1 /\ (MaxLen(all) = INF \/ o.max < MaxLen(all)), "maximum length", 0)
             \cup If(AllOK(us) # o.uok, "accepted", 1)
             \cup If(r.i.g = r.i.u /\ ~o.eq, "equality", 1)
             \cup If(o.eq /\ LangCompare(all, ul) = "different", "equality", 2)

RECURSIVE Built(_, _, _)
Built(t, ops, n) ==
  IF n = 0 THEN t
  ELSE LET b == Built(t, ops, n - 1)
       IN IF ops[n].k = "add" THEN b \o ops[n].s ELSE ops[n].s \o b

TextJudge(r) ==
  UNION {If(r.o.str[k] # Built(r.i.t, r.i.o, k), "text", k) : k \in DOMAIN r.i.o}
  \cup LET n == Bytes(Built(r.i.t, r.i.o, Len(r.i.o)))
       IN If(r.o.min # n \/ r.o.max # n, "length of the text", 0)

FindJudge(r) ==
  IF ~r.o.ok THEN {}
  ELSE LET at == r.o.at
           q == Parse(r.i.t)
       IN If(at < 0, "another child", 0)
          \cup If(at > 0 /\ (r.i.r[at] # r.i.v \/ Differ(r.i.g[at], q.e)), "child found", at)
          \cup If(at = 0 /\ \E k \in DOMAIN r.i.g : r.i.r[k] = r.i.v /\ r.i.g[k] = r.i.t, "child not found", 0)

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE CASE r.i.k = "items" -> ItemsJudge(r)
         [] r.i.k = "text" -> TextJudge(r)
         [] OTHER -> FindJudge(r)

VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
