-------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* Globs: their syntax (Parse) and their meaning (Matches), written        *)
(* independently of the implementation's items, prefixes and normal forms. *)
(*                                                                         *)
(* A glob is a sequence of elements:                                       *)
(*   [k |-> "lit", c |-> symbol]      the symbol itself                    *)
(*   [k |-> "any"]                    ? - exactly one symbol               *)
(*   [k |-> "star"]                   * - any run of symbols               *)
(*   [k |-> "set", r |-> ranges]      [..] - one symbol of the ranges      *)
(*   [k |-> "alt", a |-> globs]       {..} - one of the (flat) globs       *)
(* A flat glob has no "alt" element: lists do not nest.                    *)
(***************************************************************************)
EXTENDS Text

LBRACKET == 91  RBRACKET == 93  LBRACE == 123  RBRACE == 125
STAR == 42  QUEST == 63  COMMA == 44  DASH == 45  DOT == 46

Meta == {LBRACKET, RBRACKET, LBRACE, RBRACE, STAR, QUEST}

-----------------------------------------------------------------------------
(* Classes.  b is the text between the brackets.  A dash between two       *)
(* symbols makes a range; a range must ascend and stay within one UTF-8    *)
(* length; dashes that are not between two symbols are ignored.            *)

ClassStep(a, c) ==
  IF ~a.ok THEN a
  ELSE IF c = DASH THEN [a EXCEPT !.dash = TRUE]
  ELSE IF a.dash
    THEN IF a.start = -1 THEN [a EXCEPT !.start = c, !.dash = FALSE]
         ELSE IF a.start > c \/ Utf8Len(a.start) # Utf8Len(c)
           THEN [a EXCEPT !.ok = FALSE]
           ELSE [a EXCEPT !.r = Append(@, <<a.start, c>>),
                          !.start = -1, !.dash = FALSE]
    ELSE [a EXCEPT !.r = IF a.start = -1 THEN @ ELSE Append(@, <<a.start, a.start>>),
                   !.start = c]

ParseClass(b) ==
  LET a == FoldLeft(ClassStep,
             [ok |-> TRUE, start |-> -1, dash |-> FALSE, r |-> <<>>], b)
  IN [ok |-> a.ok,
      r  |-> IF a.start = -1 THEN a.r ELSE Append(a.r, <<a.start, a.start>>)]

InRanges(c, r) == \E i \in DOMAIN r : r[i][1] <= c /\ c <= r[i][2]

-----------------------------------------------------------------------------
(* Syntax.  The parser is a small state machine over the symbols:          *)
(* mode "top" outside of brackets, "set" after [, "list" after {.          *)

P0 == [ok |-> TRUE, mode |-> "top", buf |-> <<>>, out |-> <<>>]

TopStep(a, c, lists) ==
  CASE c = STAR     -> [a EXCEPT !.out = Append(@, [k |-> "star"])]
    [] c = QUEST    -> [a EXCEPT !.out = Append(@, [k |-> "any"])]
    [] c = LBRACKET -> [a EXCEPT !.mode = "set", !.buf = <<>>]
    [] c = LBRACE   -> IF lists THEN [a EXCEPT !.mode = "list", !.buf = <<>>]
                       ELSE [a EXCEPT !.ok = FALSE]
    [] c = RBRACKET \/ c = RBRACE -> [a EXCEPT !.ok = FALSE]
    [] OTHER -> [a EXCEPT !.out = Append(@, [k |-> "lit", c |-> c])]

SetStep(a, c) ==
  IF c # RBRACKET THEN [a EXCEPT !.buf = Append(@, c)]
  ELSE LET cl == ParseClass(a.buf)
       IN IF ~cl.ok THEN [a EXCEPT !.ok = FALSE]
          \* an empty class denotes the empty text
          ELSE IF cl.r = <<>> THEN [a EXCEPT !.mode = "top"]
          ELSE [a EXCEPT !.mode = "top",
                         !.out = Append(@, [k |-> "set", r |-> cl.r])]

FlatStep(a, c) ==
  IF ~a.ok THEN a
  ELSE IF a.mode = "set" THEN SetStep(a, c) ELSE TopStep(a, c, FALSE)

Done(a) == [ok |-> a.ok /\ a.mode = "top", e |-> a.out]

ParseFlat(s) == Done(FoldLeft(FlatStep, P0, s))

ListStep(a, c) ==
  IF c # RBRACE THEN [a EXCEPT !.buf = Append(@, c)]
  ELSE LET parts == Split(a.buf, COMMA)
           alts  == [i \in DOMAIN parts |-> ParseFlat(parts[i])]
       IN IF \E i \in DOMAIN alts : ~alts[i].ok THEN [a EXCEPT !.ok = FALSE]
          ELSE [a EXCEPT !.mode = "top",
                         !.out = Append(@, [k |-> "alt",
                                   a |-> [i \in DOMAIN alts |-> alts[i].e]])]

GlobStep(a, c) ==
  IF ~a.ok THEN a
  ELSE CASE a.mode = "set"  -> SetStep(a, c)
         [] a.mode = "list" -> ListStep(a, c)
         [] OTHER -> TopStep(a, c, TRUE)

\* [ok |-> well-formed?, e |-> elements]
Parse(s) == Done(FoldLeft(GlobStep, P0, s))

-----------------------------------------------------------------------------
(* Meaning.  Reach(e, s, P): the positions (0..Len(s)) reachable from the  *)
(* positions P by consuming s with the elements e.                         *)

FlatReach1(s, P, e) ==
  IF P = {} THEN {}
  ELSE CASE e.k = "lit"  -> {p + 1 : p \in {q \in P : q < Len(s) /\ s[q + 1] = e.c}}
         [] e.k = "any"  -> {p + 1 : p \in {q \in P : q < Len(s)}}
         [] e.k = "star" -> MinOf(P)..Len(s)
         [] e.k = "set"  -> {p + 1 : p \in {q \in P : q < Len(s)
                                               /\ InRanges(s[q + 1], e.r)}}

FlatReach(e, s, P) == FoldLeft(LAMBDA Q, x : FlatReach1(s, Q, x), P, e)

Reach1(s, P, e) ==
  IF e.k = "alt"
  THEN IF P = {} THEN {}
       ELSE UNION {FlatReach(e.a[i], s, P) : i \in DOMAIN e.a}
  ELSE FlatReach1(s, P, e)

Reach(e, s, P) == FoldLeft(LAMBDA Q, x : Reach1(s, Q, x), P, e)

\* the whole of s is in the language of the elements e
Matches(e, s) == Len(s) \in Reach(e, s, {0})

-----------------------------------------------------------------------------
(* Byte length bounds of the language: INF stands for "unlimited".         *)

INF == -1
AddMax(a, b) == IF a = INF \/ b = INF THEN INF ELSE a + b
MaxMax(a, b) == IF a = INF \/ b = INF THEN INF ELSE MaxI(a, b)

FlatMin1(e) == CASE e.k = "lit" -> Utf8Len(e.c)
                 [] e.k = "any" -> 1
                 [] e.k = "star" -> 0
                 [] e.k = "set" -> MinOf({Utf8Len(e.r[i][1]) : i \in DOMAIN e.r})
FlatMax1(e) == CASE e.k = "lit" -> Utf8Len(e.c)
                 [] e.k = "any" -> 4
                 [] e.k = "star" -> INF
                 [] e.k = "set" -> MaxOf({Utf8Len(e.r[i][2]) : i \in DOMAIN e.r})
FlatMin(e) == FoldLeft(LAMBDA n, x : n + FlatMin1(x), 0, e)
FlatMax(e) == FoldLeft(LAMBDA n, x : AddMax(n, FlatMax1(x)), 0, e)
Min1(e) == IF e.k = "alt" THEN MinOf({FlatMin(e.a[i]) : i \in DOMAIN e.a})
           ELSE FlatMin1(e)
Max1(e) == IF e.k = "alt"
           THEN FoldLeft(LAMBDA n, x : MaxMax(n, FlatMax(x)), 0, e.a)
           ELSE FlatMax1(e)
MinLen(e) == FoldLeft(LAMBDA n, x : n + Min1(x), 0, e)
MaxLen(e) == FoldLeft(LAMBDA n, x : AddMax(n, Max1(x)), 0, e)
=============================================================================
