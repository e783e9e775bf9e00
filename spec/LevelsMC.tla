------------------------------ MODULE LevelsMC ------------------------------
(***************************************************************************)
(* One pass over a text, symbol by symbol, that keeps what the path and    *)
(* wildcard helpers tell about it, against their definitions (Helpers.tla, *)
(* Dotted.tla).                                                            *)
(***************************************************************************)
EXTENDS Helpers

CONSTANTS Alphabet, MaxText
VARIABLES s, size,           \* text read, its bytes
          cur, ls,           \* part being read, parts before it
          first, last, n,    \* wildcards: offsets of the first and the last symbol, number
          lit, open          \* text before the first of them
vars == <<s, size, cur, ls, first, last, n, lit, open>>

Init == s = <<>> /\ size = 0 /\ cur = <<>> /\ ls = <<>> /\ first = -1 /\ last = -1 /\ n = 0 /\ lit = <<>> /\ open = FALSE
Read(c) ==
  /\ s' = Append(s, c) /\ size' = size + Utf8Len(c)
  /\ IF c = DOT THEN ls' = Append(ls, cur) /\ cur' = <<>> ELSE cur' = Append(cur, c) /\ UNCHANGED ls
  /\ IF c \in Meta
     THEN /\ first' = (IF first < 0 THEN size ELSE first) /\ last' = size /\ open' = TRUE
          /\ n' = n + (IF c \in Opening THEN 1 ELSE 0) /\ UNCHANGED lit
     ELSE UNCHANGED <<first, last, n, open>> /\ lit' = IF open THEN lit ELSE Append(lit, c)
Next == Len(s) < MaxText /\ \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

\* a trailing dot ends the last part, it does not begin another one
Ended == IF cur = <<>> /\ ls # <<>> THEN ls ELSE IF s = <<>> THEN <<>> ELSE Append(ls, cur)
PartsOK == Levels(s) = Ended
CountOK == LevelCount(s) = Len(Ended)
Joined == DropTrailingDot(s) = FoldLeft(LAMBDA a, x : IF a.first THEN [first |-> FALSE, t |-> x]
                                                      ELSE [a EXCEPT !.t = @ \o <<DOT>> \o x],
                                        [first |-> TRUE, t |-> <<>>], Ended).t
EmptyOK == NoEmpty(Ended) <=> \A i \in DOMAIN Ended : Ended[i] # <<>>
WildOK == first = IndexOfWild(s) /\ last = LastIndexOfWild(s) /\ n = CountOfWild(s)
LiteralOK == lit = Literal(s) /\ (first < 0 => lit = s) /\ (first >= 0 => Bytes(lit) = first)
SkipOK == \A k \in 0..MaxText + 1 :
            /\ Skipped(s, k) = (IF k > Len(s) THEN -1 ELSE size - Bytes(From(s, k + 1)))
            /\ k <= Len(s) => Skipped(s, k) = SkippedLast(s, Len(s) - k)
\* the common beginning of two texts: what two readers agreed on
CommonOK == \A k \in 0..Len(s) : CommonLiteral(<<s, To(s, k)>>) = Literal(To(s, k))
=============================================================================
