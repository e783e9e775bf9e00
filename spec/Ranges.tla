------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Character classes as sets of code points, given by sequences of ranges, *)
(* and sets of ASCII codes; positions are byte offsets.                    *)
(***************************************************************************)
EXTENDS Glob

OneEach(s) == [i \in DOMAIN s |-> <<s[i], s[i]>>]

\* first code points where membership may change
Edges(r) == {r[i][1] : i \in DOMAIN r} \cup {r[i][2] + 1 : i \in DOMAIN r}
SameSet(a, b) == \A c \in Edges(a) \cup Edges(b) : InRanges(c, a) <=> InRanges(c, b)

\* positions in s of members
Members(s, r) == {i \in DOMAIN s : InRanges(s[i], r)}

\* byte offset of the i-th symbol
Offset(s, i) == Bytes(To(s, i - 1))

\* leftmost member: [p offset or -1, c the symbol, n its size]
Search(s, r) ==
  IF Members(s, r) = {} THEN [p |-> -1, c |-> 0, n |-> 0]
  ELSE LET i == MinOf(Members(s, r)) IN [p |-> Offset(s, i), c |-> s[i], n |-> Utf8Len(s[i])]

\* offset after the first symbol if it is a member, -1 otherwise
AtStart(s, r) == IF s # <<>> /\ InRanges(s[1], r) THEN Utf8Len(s[1]) ELSE -1
\* offset of the last symbol if it is a member, -1 otherwise
AtEnd(s, r) == IF s # <<>> /\ InRanges(s[Len(s)], r) THEN Offset(s, Len(s)) ELSE -1

\* a dash can be written inside of a range only
Printable(r) == InRanges(DASH, r) => InRanges(DASH - 1, r) /\ InRanges(DASH + 1, r)

-----------------------------------------------------------------------------
\* ASCII sets, probed with byte strings

FirstAt(s, S) == LET M == {i \in DOMAIN s : s[i] \in S} IN IF M = {} THEN -1 ELSE MinOf(M) - 1
LastAt(s, S) == LET M == {i \in DOMAIN s : s[i] \in S} IN IF M = {} THEN -1 ELSE MaxOf(M) - 1
Ascending(S) == SetToSortSeq(S, <)
=============================================================================
