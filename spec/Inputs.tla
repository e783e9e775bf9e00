------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Inputs TLC enumerates for the replay on the real code: every glob of a  *)
(* few tokens with every short text, every dotted glob of a few levels     *)
(* with every short path, every tag query of a few terms with every small  *)
(* tag set.  The expected results are those of the trace specifications.   *)
(***************************************************************************)
EXTENDS Glob, TLC, Json

CONSTANTS What, Pieces, MaxPieces, Letters, MaxText, Every

GlobPieces == {<<97>>, <<98>>, <<1103>>, <<63>>, <<42>>, <<91,97,98,93>>, <<91,97,1103,93>>, <<123,97,44,98,125>>, <<123,44,97,125>>, <<123,97,98,44,97,125>>, <<123,97,42,44,98,125>>, <<123,1103,97,44,91,97,98,93,125>>, <<123,98,44,97,98,44,63,97,125>>}
LevelPieces == {<<97>>, <<42>>, <<63,98>>, <<123,97,44,98,98,125>>, <<91,97,98,93>>, <<97,42,98>>, <<123,44,97,125>>, <<>>}
TermPieces == {<<110,97,109,101,61,120>>, <<110,97,109,101,33,61,120,42>>, <<97,61,120>>, <<97,33,61,120>>, <<97,61,126,94,120>>, <<97,33,61,126,121,36>>, <<98,61,120,42>>, <<98,33,61,123,120,44,120,121,125>>, <<98,61>>, <<98,33,61>>, <<97,61,126>>, <<98,33,61,126,120,124>>}

VARIABLES q
Words(al, n) == UNION {[1..k -> al] : k \in 0..n}
Init == q \in Words(Pieces, MaxPieces) \ {<<>>}
Next == UNCHANGED q
Spec == Init /\ [][Next]_q

RECURSIVE Dotted1(_)
Dotted1(w) == IF Len(w) <= 1 THEN Concat(w) ELSE w[1] \o <<DOT>> \o Dotted1(Tail(w))

Subjects == SetToSeq(Words(Letters, MaxText))
\* paths: parts of up to two symbols, joined by dots
Paths == SetToSeq({Dotted1(w) : w \in Words(Words(Letters, 2), MaxText)})

Some(P, k) == \* every n-th of P from k on
  LET n == MaxI(1, Len(P) \div Every) IN [i \in 1..MaxI(1, Len(P) \div n) |-> P[1 + (((i - 1) * n + k) % Len(P))]]
Shift == FoldLeft(LAMBDA a, x : a * 31 + Len(x) + (IF x = <<>> THEN 7 ELSE x[1] + x[Len(x)]), 0, q) % 9973

\* tag sets: keys __name__ (always), a, b, c; values x, y, xy, or none
TagVals == { <<>>, <<120>>, <<121>>, <<120,121>> }
NAME == <<95,95,110,97,109,101,95,95>>
TagSets == SetToSeq({
   << <<NAME, n>> >> \o (IF a = <<45>> THEN <<>> ELSE << <<<<97>>, a>> >>) \o (IF b = <<45>> THEN <<>> ELSE << <<<<98>>, b>> >>)
   : n \in TagVals, a \in TagVals \cup {<<45>>}, b \in TagVals \cup {<<45>>}})

Gen == PrintT("GEN " \o ToJson(
         CASE What = "glob"   -> [g |-> Concat(q), s |-> Some(Subjects, Shift)]
           [] What = "dotted" -> [g |-> Dotted1(q), s |-> Some(Paths, Shift)]
           [] OTHER           -> [c |-> q, p |-> Some(TagSets, Shift)]))
=============================================================================
