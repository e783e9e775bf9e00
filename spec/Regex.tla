------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The part of the regular expression syntax used in tag queries that the  *)
(* specification gives a meaning to: literals, ., classes of letters and   *)
(* digits (with ranges and negation), postfix * + ?, ^ and $, alternatives *)
(* at the top level and inside groups that do not nest, escaped            *)
(* punctuation.  Anything else has the status "unknown" and nothing is     *)
(* claimed about it; texts that no reading makes well formed are "bad".    *)
(***************************************************************************)
EXTENDS Text

LPAR == 40  RPAR == 41  STARC == 42  PLUS == 43  QM == 63  BAR == 124
CARET == 94  DOLLAR == 36  BSLASH == 92  LSQ == 91  RSQ == 93
LCUR == 123  RCUR == 125  PERIOD == 46  HYPHEN == 45

Alnum(c) == (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122) \/ c > 127
Punct(c) == c > 32 /\ c < 127 /\ ~Alnum(c)

(* An item is [k |-> kind, q |-> "1" | "*" | "+" | "?", ...].                 *)
(* Reading is a machine: alts - finished alternatives, cur - the current one, *)
(* galts / gcur the same inside a group, mode "top" | "grp" | "set" | "esc".  *)
R0 == [st |-> "ok", mode |-> "top", ret |-> "top", alts |-> <<>>, cur |-> <<>>,
       galts |-> <<>>, gcur |-> <<>>, buf |-> <<>>]

Put(a, it) == IF a.mode = "grp" THEN [a EXCEPT !.gcur = Append(@, it)]
              ELSE [a EXCEPT !.cur = Append(@, it)]
Now(a) == IF a.mode = "grp" THEN a.gcur ELSE a.cur
SetNow(a, s) == IF a.mode = "grp" THEN [a EXCEPT !.gcur = s] ELSE [a EXCEPT !.cur = s]

Postfix(a, q) ==
  LET s == Now(a)
  IN IF s = <<>> THEN [a EXCEPT !.st = "bad"]
     ELSE LET it == s[Len(s)]
          IN IF it.q # "1" \/ it.k \in {"bol", "eol"} THEN [a EXCEPT !.st = "unknown"]
             ELSE SetNow(a, [s EXCEPT ![Len(s)].q = q])

\* class text, without the brackets
ClassItem(b) ==
  LET neg == b # <<>> /\ b[1] = CARET
      t == IF neg THEN From(b, 2) ELSE b
      \* members: x or x-y
      M == FoldLeft(LAMBDA m, c :
             IF m.st # "ok" THEN m
             ELSE IF c = HYPHEN THEN IF m.dash \/ m.last = -1 THEN [m EXCEPT !.st = "unknown"]
                                     ELSE [m EXCEPT !.dash = TRUE]
             ELSE IF ~Alnum(c) THEN [m EXCEPT !.st = "unknown"]
             ELSE IF m.dash
               THEN IF m.last > c THEN [m EXCEPT !.st = "bad"]
                    ELSE [m EXCEPT !.r = Append(@, <<m.last, c>>), !.dash = FALSE, !.last = -1]
             ELSE [m EXCEPT !.r = IF m.last = -1 THEN @ ELSE Append(@, <<m.last, m.last>>),
                            !.last = c],
             [st |-> "ok", r |-> <<>>, last |-> -1, dash |-> FALSE], t)
  IN [st |-> IF M.st = "ok" /\ (M.dash \/ t = <<>>) THEN "unknown" ELSE M.st,
      it |-> [k |-> IF neg THEN "nset" ELSE "set", q |-> "1",
              r |-> IF M.last = -1 THEN M.r ELSE Append(M.r, <<M.last, M.last>>)]]

ReStep(a, c) ==
  IF a.st # "ok" THEN a
  ELSE IF a.mode = "esc"
    THEN LET b == [a EXCEPT !.mode = a.ret]
         IN IF Punct(c) THEN Put(b, [k |-> "chr", q |-> "1", c |-> c])
            ELSE [b EXCEPT !.st = "unknown"]
  ELSE IF a.mode = "set"
    THEN IF c = RSQ
         THEN LET cl == ClassItem(a.buf) b == [a EXCEPT !.mode = a.ret]
              IN IF cl.st # "ok" THEN [b EXCEPT !.st = cl.st] ELSE Put(b, cl.it)
         ELSE [a EXCEPT !.buf = Append(@, c)]
  ELSE CASE c = BSLASH -> [a EXCEPT !.mode = "esc", !.ret = a.mode]
         [] c = LSQ -> [a EXCEPT !.mode = "set", !.ret = a.mode, !.buf = <<>>]
         [] c = STARC -> Postfix(a, "*")
         [] c = PLUS -> Postfix(a, "+")
         [] c = QM -> IF a.mode = "grp" /\ a.gcur = <<>> /\ a.galts = <<>>
                      THEN [a EXCEPT !.st = "unknown"] ELSE Postfix(a, "?")
         [] c = PERIOD -> Put(a, [k |-> "any", q |-> "1"])
         [] c = CARET -> Put(a, [k |-> "bol", q |-> "1"])
         [] c = DOLLAR -> Put(a, [k |-> "eol", q |-> "1"])
         [] c = BAR -> IF a.mode = "grp"
                       THEN [a EXCEPT !.galts = Append(@, a.gcur), !.gcur = <<>>]
                       ELSE [a EXCEPT !.alts = Append(@, a.cur), !.cur = <<>>]
         [] c = LPAR -> IF a.mode = "grp" THEN [a EXCEPT !.st = "unknown"]
                        ELSE [a EXCEPT !.mode = "grp", !.galts = <<>>, !.gcur = <<>>]
         [] c = RPAR -> IF a.mode = "grp"
                        THEN [a EXCEPT !.mode = "top",
                                !.cur = Append(@, [k |-> "grp", q |-> "1",
                                                   a |-> Append(a.galts, a.gcur)])]
                        ELSE [a EXCEPT !.st = "bad"]
         [] c = LCUR \/ c = RCUR -> [a EXCEPT !.st = "unknown"]
         [] OTHER -> Put(a, [k |-> "chr", q |-> "1", c |-> c])

\* [st |-> "ok" | "bad" | "unknown", alts |-> sequence of sequences of items]
ReParse(s) ==
  LET a == FoldLeft(ReStep, R0, s)
  IN [st |-> IF a.st # "ok" THEN a.st
             ELSE IF a.mode # "top" THEN "bad" ELSE "ok",
      alts |-> Append(a.alts, a.cur)]

-----------------------------------------------------------------------------
\* positions 0..Len(s) reachable from P

InCls(c, r) == \E i \in DOMAIN r : r[i][1] <= c /\ c <= r[i][2]
Eat(x, c) == CASE x.k = "chr" -> x.c = c
               [] x.k = "any" -> c # 10
               [] x.k = "set" -> InCls(c, x.r)
               [] x.k = "nset" -> ~InCls(c, x.r)
Ones(x, s, P) ==
  CASE x.k = "bol" -> P \cap {0}
    [] x.k = "eol" -> P \cap {Len(s)}
    [] OTHER -> {p + 1 : p \in {q \in P : q < Len(s) /\ Eat(x, s[q + 1])}}

RECURSIVE Many(_, _, _)    \* closure of P under an operator given as a function
Many(f, P, new) == IF new = {} THEN P
                   ELSE LET n == UNION {f[p] : p \in new} \ P IN Many(f, P \cup n, n)

Rep(s, P, q, F(_)) ==
  CASE q = "1" -> F(P)
    [] q = "?" -> P \cup F(P)
    [] q = "*" -> LET f == [p \in 0..Len(s) |-> F({p})] IN Many(f, P, P)
    [] q = "+" -> LET f == [p \in 0..Len(s) |-> F({p})] Q == F(P) IN Many(f, Q, Q)

FlatItem(x, s, P) == Rep(s, P, x.q, LAMBDA Q : Ones(x, s, Q))
FlatSeq(e, s, P) == FoldLeft(LAMBDA Q, x : FlatItem(x, s, Q), P, e)
Item(x, s, P) ==
  IF x.k = "grp"
  THEN Rep(s, P, x.q, LAMBDA Q : UNION {FlatSeq(x.a[i], s, Q) : i \in DOMAIN x.a})
  ELSE FlatItem(x, s, P)

\* the expression is found somewhere in s
ReFound(alts, s) ==
  \E i \in DOMAIN alts : FoldLeft(LAMBDA Q, x : Item(x, s, Q), 0..Len(s), alts[i]) # {}
=============================================================================
