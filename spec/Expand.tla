------------------------------- MODULE Expand -------------------------------
(***************************************************************************)
(* Shell-like expansion of lists {a,b} and classes [a-c].                  *)
(*                                                                         *)
(* An expression is a sequence of parts:                                   *)
(*   [t |-> "text", b |-> text]                 copied                     *)
(*   [t |-> "wild", b |-> text]                 copied                     *)
(*   [t |-> "pick", b |-> text, c |-> texts]    one of the choices c; b is *)
(*                                              how it is written          *)
(***************************************************************************)
EXTENDS Glob

MetaPos(s) == {i \in DOMAIN s : s[i] \in Meta}
LastMeta(s) == IF MetaPos(s) = {} THEN 0 ELSE MaxOf(MetaPos(s))

TextPart(b) == [t |-> "text", b |-> b, c |-> <<b>>]
WildPart(b) == [t |-> "wild", b |-> b, c |-> <<b>>]

\* the set of code points of ranges, ascending, as one-symbol texts
Singles(r) ==
  LET S == UNION {r[i][1]..r[i][2] : i \in DOMAIN r}
  IN [n \in 1..Cardinality(S) |-> <<SetToSortSeq(S, <)[n]>>]

BracketPart(w) ==    \* w with its brackets, no other meta symbol inside
  LET b == SubSeq(w, 2, Len(w) - 1)
  IN IF b = <<>> THEN TextPart(<<>>)
     ELSE IF w[1] = LBRACE
       THEN IF Has(b, COMMA) THEN [t |-> "pick", b |-> w, c |-> Split(b, COMMA)] ELSE TextPart(b)
       ELSE IF Bytes(b) = 1 THEN TextPart(b)
            ELSE LET cl == ParseClass(b)
                 IN IF ~cl.ok THEN WildPart(w)
                    ELSE IF cl.r = <<>> THEN TextPart(<<>>)
                    ELSE [t |-> "pick", b |-> w, c |-> Singles(cl.r)]

\* the first bracket pair without meta symbols inside may be expanded;
\* anything else (wildcard, unbalanced or nested bracket) stops expansion and
\* is copied up to the last meta symbol
RECURSIVE Parts(_)
Parts(s) ==
  LET M == MetaPos(s)
      i == MinOf(M)
      N == M \ {i}
      j == MinOf(N)
      pair == N # {} /\ ((s[i] = LBRACE /\ s[j] = RBRACE) \/ (s[i] = LBRACKET /\ s[j] = RBRACKET))
  IN IF s = <<>> THEN <<>>
     ELSE IF M = {} THEN <<TextPart(s)>>
     ELSE IF pair THEN <<TextPart(To(s, i - 1)), BracketPart(SubSeq(s, i, j))>> \o Parts(From(s, j + 1))
     ELSE <<TextPart(To(s, i - 1)), WildPart(SubSeq(s, i, LastMeta(s))), TextPart(From(s, LastMeta(s) + 1))>>

Dots(b) == Cardinality(Occ(b, DOT))

(* The choices of every part under the limits: max > 0 bounds the product of *)
(* the numbers of choices, the first part that exceeds it and all after it   *)
(* are copied; max = 0 copies all; depth > 0 copies everything from the text *)
(* that has the depth-th dot on; try keeps only the first choice.            *)
Limited(parts, max, depth, try) ==
  FoldLeft(LAMBDA a, p :
     LET n == Len(p.c)
         over == max > 0 /\ a.n > max \div n
         dots == a.dots + (IF depth > 0 /\ p.t # "pick" THEN Dots(p.b) ELSE 0)
         stop == a.stop \/ over \/ (depth > 0 /\ p.t # "pick" /\ dots >= depth)
     IN [n |-> IF stop \/ max <= 0 THEN a.n ELSE a.n * n, dots |-> dots, stop |-> stop,
         out |-> Append(a.out, IF stop THEN <<p.b>> ELSE IF try THEN <<p.c[1]>> ELSE p.c)],
     [n |-> 1, dots |-> 0, stop |-> max = 0, out |-> <<>>], parts).out

\* all results: the first part varies slowest
Product(cs) ==
  FoldRight(LAMBDA c, acc :
      FoldLeft(LAMBDA a, x : a \o [k \in DOMAIN acc |-> x \o acc[k]], <<>>, c),
    cs, << <<>> >>)

Expanded(s, max, depth, try) == Product(Limited(Parts(s), max, depth, try))
=============================================================================
