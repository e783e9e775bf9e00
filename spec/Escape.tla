------------------------------- MODULE Escape -------------------------------
(***************************************************************************)
(* URL escaping of byte strings (sequences of 0..255) and its inverse.     *)
(***************************************************************************)
EXTENDS Text

PCT == 37  PLUSB == 43  SPACE == 32

IsAlnum(c) == (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
Unreserved(c) == IsAlnum(c) \/ c \in {45, 95, 46, 126}              \* - _ . ~
\* reserved characters that a path may keep: $ & + , / : ; = @
PathKept(c) == c \in {36, 38, 43, 44, 47, 58, 59, 61, 64}

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n                    \* upper case
Triplet(c) == <<PCT, HexDigit(c \div 16), HexDigit(c % 16)>>

EscPath1(c) == IF Unreserved(c) \/ PathKept(c) THEN <<c>> ELSE Triplet(c)
EscQuery1(c) == IF Unreserved(c) THEN <<c>> ELSE IF c = SPACE THEN <<PLUSB>> ELSE Triplet(c)

EscPath(s) == FoldLeft(LAMBDA a, c : a \o EscPath1(c), <<>>, s)
EscQuery(s) == FoldLeft(LAMBDA a, c : a \o EscQuery1(c), <<>>, s)

IsHex(c) == (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 70) \/ (97 <= c /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

(* The reader holds back the symbols of a triplet until it is complete: a    *)
(* malformed one is copied as it is, and so is one cut off by the end.       *)
UnStep(a, c) ==
  IF a.t = <<>>
  THEN IF c = PCT THEN [a EXCEPT !.t = <<c>>]
       ELSE [a EXCEPT !.out = Append(@, IF c = PLUSB THEN SPACE ELSE c)]
  ELSE IF Len(a.t) = 1 THEN [a EXCEPT !.t = Append(@, c)]
  ELSE [t |-> <<>>,
        out |-> IF IsHex(a.t[2]) /\ IsHex(c)
                THEN Append(a.out, 16 * HexVal(a.t[2]) + HexVal(c))
                ELSE a.out \o a.t \o <<c>>]

Unescape(s) == LET a == FoldLeft(UnStep, [t |-> <<>>, out |-> <<>>], s) IN a.out \o a.t

-----------------------------------------------------------------------------
\* every % of an escaped text starts a well-formed triplet, the other symbols
\* are of the safe kind
WellEscaped(s, safe(_)) ==
  LET step(a, c) == CASE a = "text" -> IF c = PCT THEN "one" ELSE IF safe(c) THEN "text" ELSE "bad"
                      [] a = "one" -> IF IsHex(c) THEN "two" ELSE "bad"
                      [] a = "two" -> IF IsHex(c) THEN "text" ELSE "bad"
                      [] OTHER -> "bad"
  IN FoldLeft(step, "text", s) = "text"
PathSafe(c) == Unreserved(c) \/ PathKept(c)
QuerySafe(c) == Unreserved(c) \/ c = PLUSB
=============================================================================
