------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* What the path, wildcard and text helpers compute; offsets are in bytes. *)
(***************************************************************************)
EXTENDS Dotted, Ranges

WildAt(s) == {i \in DOMAIN s : s[i] \in Meta}
Opening == {LBRACKET, LBRACE, STAR, QUEST}

IndexOfWild(s) == IF WildAt(s) = {} THEN -1 ELSE Offset(s, MinOf(WildAt(s)))
LastIndexOfWild(s) == IF WildAt(s) = {} THEN -1 ELSE Offset(s, MaxOf(WildAt(s)))
CountOfWild(s) == Cardinality({i \in DOMAIN s : s[i] \in Opening})

\* offset after the first n symbols, -1 if there are fewer
Skipped(s, n) == IF n > Len(s) THEN -1 ELSE Bytes(To(s, n))
\* offset of the last n symbols
SkippedLast(s, n) == IF n > Len(s) THEN -1 ELSE Bytes(To(s, Len(s) - n))

\* the part before the first bracket or wildcard
Literal(s) == IF WildAt(s) = {} THEN s ELSE To(s, MinOf(WildAt(s)) - 1)

CommonPrefix(a, b) ==
  LET n == MinI(Len(a), Len(b))
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN To(a, n) ELSE To(a, MinOf(D) - 1)

CommonLiteral(gs) ==
  IF gs = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA p, g : CommonPrefix(p, Literal(g)), Literal(gs[1]), gs)
=============================================================================
