------------------------------ MODULE EscapeMC ------------------------------
(***************************************************************************)
(* Escaping and unescaping byte by byte.  The source is written and read   *)
(* at the same time: every byte is escaped, and the reader (UnStep) takes  *)
(* the escaped bytes; the text t itself is also read as it is.             *)
(*                                                                         *)
(* The reader of texts is compared with a definition without state: a      *)
(* well-formed triplet is its byte, + is a blank, everything else stays.   *)
(***************************************************************************)
EXTENDS Escape

CONSTANTS Alphabet, MaxText
Every == 0..255
\* NUL % + blank / a 3 F f G ~ 0x7f 0x80 0xff
Kinds == {0, 37, 43, 32, 47, 97, 51, 70, 102, 71, 126, 127, 128, 255}
Few == {37, 43, 97, 51, 102, 71}
VARIABLES t, q, p, uq, up, u
vars == <<t, q, p, uq, up, u>>

U0 == [t |-> <<>>, out |-> <<>>]
Feed(a, s) == FoldLeft(UnStep, a, s)
Init == t = <<>> /\ q = <<>> /\ p = <<>> /\ uq = U0 /\ up = U0 /\ u = U0
Next == \E c \in Alphabet : Len(t) < MaxText /\ t' = Append(t, c)
          /\ q' = q \o EscQuery1(c) /\ p' = p \o EscPath1(c)
          /\ uq' = Feed(uq, EscQuery1(c)) /\ up' = Feed(up, EscPath1(c)) /\ u' = UnStep(u, c)
Spec == Init /\ [][Next]_vars

\* after every byte nothing is held back and the source is there again
QueryInverse == uq.t = <<>> /\ uq.out = t
PathInverse == ~Has(t, PLUSB) => up.t = <<>> /\ up.out = t
PlusLost == Has(t, PLUSB) => up.out # t          \* why + is excepted
Clean == WellEscaped(q, QuerySafe) /\ WellEscaped(p, PathSafe)
\* nothing is escaped without need, different texts are written differently
Stays == (\A i \in DOMAIN t : Unreserved(t[i])) <=> (q = t)
Whole == q = EscQuery(t) /\ p = EscPath(t)

RECURSIVE Plain(_)
Plain(s) == IF s = <<>> THEN <<>>
            ELSE IF s[1] = PLUSB THEN <<SPACE>> \o Plain(Tail(s))
            ELSE IF s[1] # PCT THEN <<s[1]>> \o Plain(Tail(s))
            ELSE IF Len(s) < 3 THEN s
            ELSE IF IsHex(s[2]) /\ IsHex(s[3]) THEN <<16 * HexVal(s[2]) + HexVal(s[3])>> \o Plain(From(s, 4))
            ELSE To(s, 3) \o Plain(From(s, 4))
SameAsPlain == Unescape(t) = Plain(t) /\ u.out \o u.t = Plain(t)
NotLonger == Len(Unescape(t)) <= Len(t)
=============================================================================
