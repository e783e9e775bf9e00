------------------------------ MODULE RangesMC ------------------------------
(***************************************************************************)
(* A character class kept as a sorted sequence of ranges.  Ranges are      *)
(* added in any order and merged from time to time: sorted by their first  *)
(* symbol, then put together from left to right when they overlap or       *)
(* follow each other within the same UTF-8 length.  A symbol is looked for *)
(* in a merged class by halving.                                           *)
(*                                                                         *)
(* Checked: merging changes no membership, equal classes have equal        *)
(* ranges, the printed form reads back (Ranges.tla, Glob.tla), halving     *)
(* finds what is there.  Negative variants: ranges put together over a     *)
(* change of the UTF-8 length ("wide") print a text that is no class;      *)
(* comparing with the end of the next range only ("last") loses the end of *)
(* a range that contains another.                                          *)
(***************************************************************************)
EXTENDS Ranges

CONSTANTS Symbols, MaxAdds, MaxWidth, How

SymbolsQ == {97, 98, 99, 100, 128, 129, 2046, 2047, 2048, 2049}
SymbolsT == SymbolsQ \cup {127, 130, 65535, 65536, 65537}

VARIABLES given,  \* ranges as they were added
          r,      \* ranges of the class
          merged, c, lo, hi, found
vars == <<given, r, merged, c, lo, hi, found>>

RangesOf(S) == {<<a, b>> \in S \X S : a <= b /\ Utf8Len(a) = Utf8Len(b)
                  /\ Cardinality({x \in S : a <= x /\ x <= b}) <= MaxWidth}

Init == given = <<>> /\ r = <<>> /\ merged = TRUE /\ c = 0 /\ lo = 1 /\ hi = 0 /\ found = "no"

\* -- merging

Joins(x, y) == \/ x[2] >= y[1]
               \/ x[2] + 1 = y[1] /\ (How = "wide" \/ Utf8Len(x[2]) = Utf8Len(y[1]))
RECURSIVE Pass(_)
Pass(q) ==
  IF Len(q) < 2 THEN q
  ELSE IF Joins(q[1], q[2])
    THEN Pass(<< <<q[1][1], IF How = "last" \/ q[1][2] < q[2][2] THEN q[2][2] ELSE q[1][2]>> >> \o From(q, 3))
    ELSE <<q[1]>> \o Pass(Tail(q))
Sorted(q) == SortSeq(q, LAMBDA x, y : x[1] < y[1])

Add == /\ c = 0 /\ Len(given) < MaxAdds
       /\ \E x \in RangesOf(Symbols) : given' = Append(given, x) /\ r' = Append(r, x)
       /\ merged' = FALSE /\ UNCHANGED <<c, lo, hi, found>>
Merge == /\ ~merged /\ merged' = TRUE /\ r' = Pass(Sorted(r)) /\ UNCHANGED <<given, c, lo, hi, found>>

\* -- looking for a symbol

Look == /\ merged /\ r # <<>> /\ found = "no" /\ c = 0
        /\ \E x \in Symbols \cup {101, 131, 2050} : c' = x
        /\ lo' = 1 /\ hi' = Len(r) /\ UNCHANGED <<given, r, merged, found>>
Halve == /\ c # 0 /\ lo <= hi /\ found = "no"
         /\ LET mid == (lo + hi) \div 2
            IN IF c < r[mid][1] THEN hi' = mid - 1 /\ UNCHANGED <<lo, found>>
               ELSE IF c > r[mid][2] THEN lo' = mid + 1 /\ UNCHANGED <<hi, found>>
               ELSE found' = "yes" /\ UNCHANGED <<lo, hi>>
         /\ UNCHANGED <<given, r, merged, c>>

Again == /\ c # 0 /\ (found = "yes" \/ lo > hi)
         /\ c' = 0 /\ lo' = 1 /\ hi' = 0 /\ found' = "no" /\ UNCHANGED <<given, r, merged>>

Next == Add \/ Merge \/ Look \/ Halve \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Halve)

Same == SameSet(given, r)
Shape == merged => \A i \in 1..Len(r) - 1 :
           /\ r[i][2] < r[i + 1][1]
           /\ r[i][2] + 1 = r[i + 1][1] => Utf8Len(r[i][2]) # Utf8Len(r[i + 1][1])
\* only one form for a set: the runs from where membership begins to where it ends
In(x) == InRanges(x, given)
Begins == {x \in Edges(given) : In(x) /\ (~In(x - 1) \/ Utf8Len(x - 1) # Utf8Len(x))}
          \cup {x \in {128, 2048, 65536} : In(x)}
RunEnd(x) == MinOf({y - 1 : y \in {e \in Edges(given) \cup {128, 2048, 65536} :
                                    e > x /\ (~In(e) \/ Utf8Len(e - 1) # Utf8Len(e))}})
Canonical == merged => RangeOf(r) = {<<x, RunEnd(x)>> : x \in Begins}

Printed == <<LBRACKET>> \o FoldLeft(LAMBDA a, x : a \o (IF x[1] = x[2] THEN <<x[1]>> ELSE <<x[1], DASH, x[2]>>), <<>>, r)
           \o <<RBRACKET>>
ReadsBack == merged =>
  LET p == ParseClass(SubSeq(Printed, 2, Len(Printed) - 1)) IN p.ok /\ SameSet(p.r, r) /\ p.r = r
Found == (c # 0 /\ (lo > hi \/ found = "yes")) => ((found = "yes") <=> InRanges(c, given))
Inside == c # 0 /\ found = "no" => \A i \in DOMAIN r : r[i][1] <= c /\ c <= r[i][2] => lo <= i /\ i <= hi
Terminates == [](c # 0 => <>(found = "yes" \/ lo > hi))
=============================================================================
