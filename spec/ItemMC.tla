------------------------------- MODULE ItemMC -------------------------------
(***************************************************************************)
(* Looking for an item in a text.  A list looks for a symbol one of its    *)
(* values begins with first, and compares values there only; a class or a  *)
(* text is compared at every place.  The places are visited from the left, *)
(* the first hit is reported with its byte offset and length.              *)
(*                                                                         *)
(* Checked: what is found is the leftmost place where the item matches     *)
(* (meaning of Glob.tla), nothing is found only if there is none, and the  *)
(* filter by first symbols hides nothing.  Heads = "one" keeps the first   *)
(* symbol of one value only, which must be noticed.                        *)
(***************************************************************************)
EXTENDS Helpers

CONSTANTS Items, Letters, MaxText, Heads

ItemsQ == {<<97>>, <<97,98>>, <<1103>>, <<97,1103>>, <<91,97,93>>, <<91,97,98,93>>, <<91,1103,93>>, <<91,97,45,98,1102,45,1103,93>>, <<123,97,44,98,125>>, <<123,97,98,44,98,97,125>>, <<123,1103,97,44,97,125>>, <<123,97,98,44,97,98,98,44,98,125>>, <<123,98,44,98,1103,125>>,
           <<63>>, <<63,63>>}

VARIABLES t, e, s, i, at, n, pc
vars == <<t, e, s, i, at, n, pc>>

Words(al, k) == UNION {[1..j -> al] : j \in 0..k}
Init == t \in Items /\ e = Parse(t).e /\ s \in Words(Letters, MaxText) /\ i = 1 /\ at = -1 /\ n = 0 /\ pc = "look"

IsList == Len(e) = 1 /\ e[1].k = "alt"
Vals == IF IsList THEN {e[1].a[k] : k \in DOMAIN e[1].a} ELSE {}
HeadSet == LET H == {v[1].c : v \in Vals} IN IF Heads = "one" THEN {MinOf(H)} ELSE H

\* symbols the item takes at the front of the rest, longest first
Takes(r) == {k \in 0..Len(r) : Matches(e, To(r, k))}
Rest == From(s, i)

Next ==
  /\ pc = "look" /\ UNCHANGED <<t, e, s>>
  /\ IF i > Len(s) THEN pc' = "none" /\ UNCHANGED <<i, at, n>>
     ELSE IF IsList /\ s[i] \notin HeadSet THEN i' = i + 1 /\ UNCHANGED <<at, n, pc>>
     ELSE IF Takes(Rest) = {} THEN i' = i + 1 /\ UNCHANGED <<at, n, pc>>
     ELSE at' = Offset(s, i) /\ n' = Bytes(To(Rest, MinOf(Takes(Rest)))) /\ pc' = "found" /\ UNCHANGED i
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Hits == {k \in 1..Len(s) : \E m \in k..Len(s) : Matches(e, SubSeq(s, k, m))}
Leftmost == pc = "found" => Hits # {} /\ at = Offset(s, MinOf(Hits))
NoneLeft == pc = "none" => Hits = {}
\* nothing passed over
Passed == \A k \in Hits : k >= i
LengthOK == pc = "found" => n > 0 /\ at + n <= Bytes(s)
\* an anchored match is a hit at the first place, one at the end the last place that reaches it
Anchored == pc = "found" => (at = 0 <=> 1 \in Hits)
Terminates == <>(pc # "look")
=============================================================================
