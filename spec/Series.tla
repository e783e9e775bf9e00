------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Tag queries: seriesByTag('key op value', ...).                          *)
(*                                                                         *)
(* A term is [k |-> key, o |-> 1..4, v |-> value text]; the operators are  *)
(* 1 =, 2 =~, 3 !=, 4 !=~.                                                 *)
(***************************************************************************)
EXTENDS Regex, Glob, GlobLang

BLANK == 32  SQUOTE == 39  DQUOTE == 34  EQ == 61  TILDE == 126  BANG == 33
HEAD == <<115,101,114,105,101,115,66,121,84,97,103,40>>      \* seriesByTag(
NAME == <<110,97,109,101>>
DNAME == <<95,95,110,97,109,101,95,95>>                      \* __name__
WhiteSpace == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
              \cup 8192..8202
MAXARGS == 128

WildcardChars == {LBRACKET, RBRACKET, LBRACE, RBRACE, STAR, QUEST}
HasWild(s) == \E i \in DOMAIN s : s[i] \in WildcardChars

-----------------------------------------------------------------------------
\* the quoted arguments

ArgStep(a, c) ==
  IF ~a.ok THEN a
  ELSE IF a.q # 0
    THEN IF c = a.q THEN [a EXCEPT !.q = 0, !.cur = <<>>,
                             !.args = IF a.cur = <<>> THEN @ ELSE Append(@, a.cur)]
         ELSE [a EXCEPT !.cur = Append(@, c)]
  ELSE IF c = SQUOTE \/ c = DQUOTE THEN [a EXCEPT !.q = c]
  ELSE IF c = BLANK \/ c = COMMA THEN a
  ELSE [a EXCEPT !.ok = FALSE]

Args(query) ==
  LET e == Trim(query, {BLANK})
      n == Len(e)
      a == FoldLeft(ArgStep, [ok |-> TRUE, q |-> 0, cur |-> <<>>, args |-> <<>>],
                    SubSeq(e, 13, n - 1))
  IN IF n < 13 \/ ~StartsWith(e, HEAD) \/ e[n] # RPAR THEN [ok |-> FALSE, args |-> <<>>]
     ELSE [ok |-> a.ok /\ a.q = 0 /\ Len(a.args) <= MAXARGS, args |-> a.args]

-----------------------------------------------------------------------------
\* one condition

NoTerm == [st |-> "bad", k |-> <<>>, o |-> 0, v |-> <<>>]

\* st: "ok", "bad" or "unknown" (a regular expression beyond the specification)
Term(s) ==
  LET P == {i \in DOMAIN s : s[i] \in {EQ, TILDE, BANG}}
      p == MinOf(P)
      k == Trim(To(s, p - 1), WhiteSpace)
      is(i, c) == i <= Len(s) /\ s[i] = c
      o == CASE is(p, EQ) /\ is(p + 1, TILDE) -> 2
             [] is(p, EQ) -> 1
             [] is(p, BANG) /\ is(p + 1, EQ) /\ is(p + 2, TILDE) -> 4
             [] is(p, BANG) /\ is(p + 1, EQ) -> 3
             [] OTHER -> 0
      w == CASE o = 1 -> 1 [] o = 2 -> 2 [] o = 3 -> 2 [] o = 4 -> 3 [] OTHER -> 0
      v == Trim(From(s, p + w), WhiteSpace)
      st == IF o \in {2, 4} THEN ReParse(v).st
            ELSE IF HasWild(v) /\ ~Parse(v).ok THEN "bad" ELSE "ok"
  IN IF P = {} \/ p = 1 THEN NoTerm
     ELSE IF k = <<>> \/ o = 0 THEN NoTerm
     ELSE [st |-> st, k |-> IF k = NAME THEN DNAME ELSE k, o |-> o, v |-> v]

Conditions(cs) ==
  LET t == [i \in DOMAIN cs |-> Term(cs[i])]
  IN [st |-> IF \E i \in DOMAIN t : t[i].st = "bad" THEN "bad"
             ELSE IF \E i \in DOMAIN t : t[i].st = "unknown" THEN "unknown" ELSE "ok",
      t |-> t]

Query(q) ==
  LET a == Args(q)
  IN IF ~a.ok THEN [st |-> "bad", t |-> <<>>] ELSE Conditions(a.args)

-----------------------------------------------------------------------------
\* order of the terms: __name__ first, then key, operator, value

KeyLess(a, b) == IF a = b THEN FALSE
                 ELSE IF a = DNAME THEN TRUE ELSE IF b = DNAME THEN FALSE
                 ELSE Less(a, b)

TermLE(x, y) ==
  IF x.k # y.k THEN KeyLess(x.k, y.k)
  ELSE IF x.o # y.o THEN x.o < y.o
  ELSE ~Less(y.v, x.v)

Sorted(t) == \A i \in 1..Len(t) - 1 : TermLE(t[i], t[i + 1])

\* meaning of the value of a = or != term: a glob, or the text itself
ValueElems(v) == IF HasWild(v) THEN Parse(v).e ELSE [i \in DOMAIN v |-> [k |-> "lit", c |-> v[i]]]

SameValue(x, y) ==
  \/ x.v = y.v
  \/ /\ x.o \in {1, 3}
     /\ HasWild(x.v) \/ HasWild(y.v)
     /\ HasWild(y.v) => Parse(y.v).ok
     /\ HasWild(x.v) => Parse(x.v).ok
     /\ LangCompare(ValueElems(x.v), ValueElems(y.v)) # "different"

SameTerm(x, y) == x.k = y.k /\ x.o = y.o /\ SameValue(x, y)

\* the same terms up to order, repetition counts included for equal texts
SameTerms(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A i \in DOMAIN s : \E j \in DOMAIN t : SameTerm(s[i], t[j])
  /\ \A j \in DOMAIN t : \E i \in DOMAIN s : SameTerm(s[i], t[j])

-----------------------------------------------------------------------------
\* satisfaction; tags is a sequence of pairs <<key, value>> with unique keys

HasTag(tags, k) == \E i \in DOMAIN tags : tags[i][1] = k
TagValue(tags, k) == tags[CHOOSE i \in DOMAIN tags : tags[i][1] = k][2]

Positive(t, v) == IF t.o \in {1, 3}
                  THEN IF HasWild(t.v) THEN Matches(Parse(t.v).e, v) ELSE t.v = v
                  ELSE ReFound(ReParse(t.v).alts, v)

Satisfied(t, tags) ==
  IF t.o \in {1, 2} THEN HasTag(tags, t.k) /\ Positive(t, TagValue(tags, t.k))
  ELSE ~HasTag(tags, t.k) \/ ~Positive(t, TagValue(tags, t.k))

AllSatisfied(ts, tags) == \A i \in DOMAIN ts : Satisfied(ts[i], tags)
=============================================================================
