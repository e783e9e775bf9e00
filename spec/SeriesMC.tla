------------------------------ MODULE SeriesMC ------------------------------
(***************************************************************************)
(* Reading the arguments of seriesByTag(...) symbol by symbol (the state   *)
(* of Series.tla), against the grammar, which needs no state:              *)
(*   args = { blank | comma | quoted }                                     *)
(*   quoted = ' text without ' '  |  " text without " "                    *)
(***************************************************************************)
EXTENDS Series

CONSTANTS Alphabet, MaxText
VARIABLES t, a
vars == <<t, a>>

A0 == [ok |-> TRUE, q |-> 0, cur |-> <<>>, args |-> <<>>]
Init == t = <<>> /\ a = A0
Next == \E c \in Alphabet : Len(t) < MaxText /\ t' = Append(t, c) /\ a' = ArgStep(a, c)
Spec == Init /\ [][Next]_vars

Accepted == a.ok /\ a.q = 0

RECURSIVE Grammar(_)
Grammar(s) == \* [ok, args]
  IF s = <<>> THEN [ok |-> TRUE, args |-> <<>>]
  ELSE IF s[1] \in {BLANK, COMMA} THEN Grammar(Tail(s))
  ELSE IF s[1] \notin {SQUOTE, DQUOTE} THEN [ok |-> FALSE, args |-> <<>>]
  ELSE LET j == Pos(Tail(s), s[1])
       IN IF j = 0 THEN [ok |-> FALSE, args |-> <<>>]
          ELSE LET r == Grammar(From(s, j + 2))
                   x == SubSeq(s, 2, j)
               IN [ok |-> r.ok, args |-> IF x = <<>> THEN r.args ELSE <<x>> \o r.args]

SameAsGrammar == LET g == Grammar(t) IN Accepted = g.ok /\ (Accepted => a.args = g.args)
\* the whole text, with blanks around
Around == \A q \in {HEAD \o t \o <<41>>, <<32>> \o HEAD \o t \o <<41,32>>} : Args(q) = [ok |-> Accepted, args |-> a.args]
\* the head and the bracket are needed
Whole == /\ ~Args(HEAD \o t \o <<93>>).ok
         /\ ~Args(Tail(HEAD) \o t \o <<41>>).ok
\* an accepted argument has no quote of its own kind: it can be quoted again
Quotable == \A i \in DOMAIN a.args : ~(Has(a.args[i], SQUOTE) /\ Has(a.args[i], DQUOTE)) =>
              LET q == IF Has(a.args[i], SQUOTE) THEN DQUOTE ELSE SQUOTE
              IN Args(HEAD \o <<q>> \o a.args[i] \o <<q>> \o <<41>>) = [ok |-> TRUE, args |-> <<a.args[i]>>]
Monotone == [][/\ ~a.ok => ~a'.ok
               /\ a'.ok => StartsWith(a'.args, a.args)]_vars
=============================================================================
