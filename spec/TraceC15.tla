------------------------------ MODULE TraceC15 ------------------------------
(***************************************************************************)
(* Histories of classes: i.c the text of a class (with brackets), i.a      *)
(* symbols added to it, i.d the text of another class, i.p probe texts.    *)
(* o.ok / o.dok - the texts are accepted; o.v[1] observations of the class *)
(* as parsed, o.v[2] after the additions, o.v[3] of a class made by adding *)
(* i.a to an empty one; o.eq - the parsed classes are equal, o.eqa - the   *)
(* class with the additions equals the class of i.d; o.eqs - it is the same when *)
(* the additions are merged one by one.                                    *)
(*                                                                         *)
(* An ASCII set (i.k = "ascii"): i.b bytes it is made of, i.e bytes added; *)
(* i.q byte probes.                                                        *)
(***************************************************************************)
EXTENDS Ranges, TraceBase

ClassOf(t) == IF Len(t) >= 2 /\ t[1] = LBRACKET /\ t[Len(t)] = RBRACKET
              THEN ParseClass(SubSeq(t, 2, Len(t) - 1)) ELSE [ok |-> FALSE, r |-> <<>>]

\* one observation v of a class against its ranges r; p the probes
View(v, r, p, n) ==
  LET pr == ClassOf(v.str)
  IN UNION {
       LET s == p[k]  f == Search(s, r)  w == v.p[k]
       IN If(s # <<>> /\ w.has # InRanges(s[1], r), "membership", k)
          \cup If(w.ix # f.p \/ w.bx # f.p, "first position", k)
          \cup If(f.p >= 0 /\ (w.ic # f.c \/ w.bc # f.c \/ w.in # f.n \/ w.bn # f.n), "found symbol", k)
          \cup If(w.st # AtStart(s, r), "first symbol", k)
          \cup If(w.st >= 0 /\ w.sc # s[1], "first symbol found", k)
          \cup If(w.en # AtEnd(s, r), "last symbol", k)
          \cup If(w.en >= 0 /\ w.ec # s[Len(s)], "last symbol found", k)
       : k \in DOMAIN p}
     \cup If(Printable(r) /\ ~(pr.ok /\ SameSet(pr.r, r)), "printed form", n)
     \cup If(r # <<>> /\ (v.min # MinOf({Utf8Len(r[i][1]) : i \in DOMAIN r})
                          \/ v.max # MaxOf({Utf8Len(r[i][1]) : i \in DOMAIN r})), "sizes", n)

JudgeClass(r) ==
  LET c == ClassOf(r.i.c)  d == ClassOf(r.i.d)  add == OneEach(r.i.a)
  IN If(~r.o.eqs, "additions merged one by one", 0) \cup If(r.o.ok # c.ok, "accepted", 0) \cup If(r.o.dok # d.ok, "accepted", 1)
     \cup View(r.o.v[3], add, r.i.p, 3)
     \cup (IF ~(c.ok /\ r.o.ok) THEN {}
           ELSE View(r.o.v[1], c.r, r.i.p, 1) \cup View(r.o.v[2], c.r \o add, r.i.p, 2))
     \cup (IF ~(c.ok /\ r.o.ok /\ d.ok /\ r.o.dok) THEN {}
           ELSE If(r.o.eq # SameSet(c.r, d.r), "equality", 1)
                \cup If(r.o.eqa # SameSet(c.r \o add, d.r), "equality", 2))

JudgeAscii(r) ==
  LET ok == \A i \in DOMAIN r.i.b : r.i.b[i] < 128
      S == {x \in RangeOf(r.i.b) \cup RangeOf(r.i.e) : x < 128}
      R == OneEach(Ascending(S))
      pr == ParseClass(r.o.str)
      a == r.o
  IN IF a.ok # ok THEN {<<"all ASCII", 0>>}
     ELSE IF ~ok THEN {}
     ELSE If(RangeOf(a.has) # S, "membership", 0)
          \cup If(\E i \in DOMAIN r.i.e : a.add[i] # (r.i.e[i] < 128), "addition", 0)
          \cup If(a.n # Cardinality(S) \/ (S # {} /\ a.first # MinOf(S)), "count", 0)
          \cup If(~a.clr, "cleared", 0)
          \cup If(a.none # (S = {}), "emptiness", 0)
          \cup If(a.all # Ascending(S), "list of members", 0)
          \cup If(Printable(R) /\ ~(pr.ok /\ SameSet(pr.r, R)), "printed form", 0)
          \cup UNION {If(a.f[k] # FirstAt(r.i.q[k], S) \/ a.fb[k] # FirstAt(r.i.q[k], S), "first position", k)
                      \cup If(a.l[k] # LastAt(r.i.q[k], S) \/ a.lb[k] # LastAt(r.i.q[k], S), "last position", k)
                      : k \in DOMAIN r.i.q}

Judge(r) == IF r.x # "ok" THEN Crashed(r)
            ELSE IF r.i.k = "ascii" THEN JudgeAscii(r) ELSE JudgeClass(r)

VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
