------------------------------ MODULE TraceC20 ------------------------------
(***************************************************************************)
(* Pattern items: i.t a glob text of which the first item is taken, i.u    *)
(* another one, i.s subjects.  o.ok accepted; o.k the kind of the item:    *)
(* "lit" (byte, rune, string), "set", "any", "star", "list", "group",      *)
(* "chain", "none"; o.str its text, o.next what is left of i.t, o.min /    *)
(* o.max length bounds, o.eq equality with the first item of i.u (o.ustr), *)
(* o.p[n] what it finds in i.s[n]: m Match, l MatchLast, f / fn Find.      *)
(***************************************************************************)
EXTENDS Helpers, GlobLang, TraceBase

\* the text the item was made of
Taken(t, next) == To(t, Len(t) - Len(next))

Vals(e) == {e[1].a[i] : i \in DOMAIN e[1].a}
LitText(v) == [i \in DOMAIN v |-> v[i].c]

\* occurrences of text v in s
Places(s, v) == {i \in 1..Len(s) + 1 : At(s, i, v)}

\* items of one symbol or text
Fixed(s, w, matchAt, size, n) ==      \* matchAt(i): the item matches at i; size(i): symbols it takes
  LET P == {i \in 1..Len(s) + 1 : matchAt[i]}
      E == {i \in P : i + size[i] - 1 = Len(s)}
  IN If(w.m # (IF 1 \in P THEN Offset(s, 1 + size[1]) ELSE -1), "match", n)
     \cup If(w.l # (IF E = {} THEN -1 ELSE Offset(s, MaxOf(E))), "match at the end", n)
     \cup If(w.f # (IF P = {} THEN -1 ELSE Offset(s, MinOf(P))), "find", n)
     \cup If(P # {} /\ w.fn # Offset(s, MinOf(P) + size[MinOf(P)]) - Offset(s, MinOf(P)), "length found", n)

Probe(r, e, w, s, n) ==
  CASE r.o.k = "lit" ->
         LET v == r.o.str
         IN Fixed(s, w, [i \in 1..Len(s) + 1 |-> At(s, i, v)], [i \in 1..Len(s) + 1 |-> Len(v)], n)
    [] r.o.k = "set" ->
         Fixed(s, w, [i \in 1..Len(s) + 1 |-> i <= Len(s) /\ InRanges(s[i], e[1].r)],
               [i \in 1..Len(s) + 1 |-> 1], n)
    [] r.o.k = "any" ->      \* as many symbols as it has
         If(w.m # Skipped(s, Len(e)), "match", n)
         \cup If((w.f = -1) # (Len(e) > Len(s)) \/ (w.f # -1 /\ (w.f # 0 \/ w.fn # Skipped(s, Len(e)))), "find", n)
    [] r.o.k = "star" ->     \* at least that many symbols
         LET m == Cardinality({i \in DOMAIN e : e[i].k = "any"})
         IN If(w.m # Skipped(s, m), "match", n)
            \cup If((w.f = -1) # (m > Len(s)) \/ (w.f # -1 /\ (w.f # 0 \/ w.fn # Skipped(s, m))), "find", n)
    [] r.o.k = "list" ->
         LET V == {LitText(v) : v \in Vals(e)} \ {<<>>}
             at(v) == IF StartsWith(s, v) THEN Bytes(v) ELSE -1
             fst(v) == IF Places(s, v) = {} THEN <<-1, 0>> ELSE <<Offset(s, MinOf(Places(s, v))), Bytes(v)>>
             heads == {v[1] : v \in V}
             H == {i \in DOMAIN s : s[i] \in heads}
         IN If({<<w.vm[k], w.vf[k], w.vn[k]>> : k \in DOMAIN w.vm}
               # {<<at(v), fst(v)[1], fst(v)[2]>> : v \in V}, "values", n)
            \cup If(Len(w.vm) # Cardinality(V), "number of values", n)
            \cup If(w.ffs /\ w.ff # (IF H = {} THEN -1 ELSE Offset(s, MinOf(H))), "find the first symbol", n)
            \cup If(w.mfs /\ w.mf # (1 \in H), "match the first symbol", n)
            \cup If(~w.mfs /\ ~w.mf, "match the first symbol", n)
    [] OTHER -> {}

\* the kind tells what is asked of an item: it must be one its printed form allows
KindOK(k, e) ==
  CASE k = "set" -> Len(e) = 1 /\ e[1].k = "set"
    [] k = "any" -> e # <<>> /\ \A i \in DOMAIN e : e[i].k = "any"
    [] k = "star" -> e # <<>> /\ \A i \in DOMAIN e : e[i].k \in {"any", "star"}
    [] k = "list" -> Len(e) = 1 /\ e[1].k = "alt"
                     /\ \A i \in DOMAIN e[1].a : \A j \in DOMAIN e[1].a[i] : e[1].a[i][j].k = "lit"
    [] OTHER -> TRUE

Judge(r) ==
  IF r.x # "ok" THEN Crashed(r)
  ELSE LET o == r.o
           t == Parse(Taken(r.i.t, o.next))
           \* what denotes only the empty text makes no item
           p == [ok |-> t.ok, e |-> SelectSeq(t.e, LAMBDA x : Max1(x) # 0)]
           q == Parse(o.str)
       IN IF ~o.ok THEN {}                      \* acceptance is another property
          ELSE IF ~EndsWith(r.i.t, o.next) \/ (r.i.t # <<>> /\ o.next = r.i.t) THEN {<<"rest", 0>>}
          ELSE IF ~p.ok THEN {<<"item of a malformed text", 0>>}
          ELSE IF o.k = "none" THEN If(MaxLen(p.e) # 0, "no item", 0)
          ELSE IF ~q.ok THEN {<<"printed form", 0>>}
          ELSE IF ~KindOK(o.k, q.e) THEN {<<"kind of item", 0>>}
          ELSE If(LangCompare(p.e, q.e) = "different", "printed form", 0)
               \cup If(o.buf # <<1>> \o o.str, "text appended to a buffer", 0)
               \cup If(o.min > MinLen(p.e), "minimum length", 0)
               \cup If(o.max # -1 /\ (MaxLen(p.e) = INF \/ o.max < MaxLen(p.e)), "maximum length", 0)
               \cup If(r.i.t = r.i.u /\ ~o.eq, "equality", 1)
               \cup If(o.eq /\ LET u == Parse(o.ustr) IN ~u.ok \/ LangCompare(q.e, u.e) = "different", "equality", 2)
               \cup If(o.k \in {"list", "group"} /\ o.opt # (MinLen(p.e) = 0), "optionality", 0)
               \cup If(o.k = "list" /\ RangeOf(o.vals) # {LitText(v) : v \in Vals(q.e)}, "value set", 0)
               \cup UNION {Probe(r, q.e, o.p[n], r.i.s[n], n) : n \in DOMAIN r.i.s}

VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
