-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text is a finite sequence of Unicode code points (naturals).  This      *)
(* module has the few text operations that the rest of the specification   *)
(* is written with: UTF-8 sizes, splitting, searching, trimming, ordering. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
              ELSE IF c < 65536 THEN 3 ELSE 4

\* number of bytes of the UTF-8 encoding of text s
Bytes(s) == FoldLeft(LAMBDA n, c : n + Utf8Len(c), 0, s)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* positions of symbol c in s
Occ(s, c) == {i \in DOMAIN s : s[i] = c}
Has(s, c) == \E i \in DOMAIN s : s[i] = c
\* first position of symbol c in s, 0 if none
Pos(s, c) == IF Has(s, c) THEN MinOf(Occ(s, c)) ELSE 0

From(s, i) == SubSeq(s, i, Len(s))        \* s[i..]
To(s, i) == SubSeq(s, 1, i)               \* s[..i]

StartsWith(s, p) == Len(p) <= Len(s) /\ \A i \in DOMAIN p : s[i] = p[i]
EndsWith(s, p) == Len(p) <= Len(s)
                  /\ \A i \in DOMAIN p : s[Len(s) - Len(p) + i] = p[i]
\* p occurs in s at position i
At(s, i, p) == i + Len(p) - 1 <= Len(s)
               /\ \A j \in DOMAIN p : s[i + j - 1] = p[j]

\* pieces of s between occurrences of the symbol c (at least one piece)
Split(s, c) ==
  LET r == FoldLeft(LAMBDA a, x : IF x = c
                      THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                      ELSE [a EXCEPT !.cur = Append(@, x)],
                    [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)

\* concatenation of a sequence of texts, with a separator text between them
Join(ss, sep) ==
  FoldLeftDomain(LAMBDA a, i : IF i = 1 THEN ss[1] ELSE a \o sep \o ss[i],
                 <<>>, ss)

Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

\* s without leading and trailing symbols of the set B
Trim(s, B) ==
  LET K == {i \in DOMAIN s : s[i] \notin B}
  IN IF K = {} THEN <<>> ELSE SubSeq(s, MinOf(K), MaxOf(K))

\* strict order of texts (by code point, as the byte order of UTF-8)
Less(a, b) ==
  LET n == MinI(Len(a), Len(b))
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == MinOf(D) IN a[i] < b[i]

Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

RangeOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
