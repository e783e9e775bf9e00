------------------------------ MODULE ComposeMC ------------------------------
(***************************************************************************)
(* Composing a list of items one by one.  The next item is merged with the *)
(* last one of the list if both are texts (one symbol or more) or both are *)
(* wildcards (n symbols, n symbols or more); otherwise it is put behind.   *)
(* A text can be changed at both of its ends.                              *)
(*                                                                         *)
(* Checked: after every step the list denotes the concatenation of what    *)
(* was appended (the languages are compared, not the items), its printed   *)
(* form denotes the same, two neighbours are never of one kind, the sums   *)
(* of the bounds are bounds of the language, and the list is the same      *)
(* however the elements are grouped into items before they are appended.   *)
(* Merge = "star" forgets the symbols of a run that meets a star and must  *)
(* be noticed; so must Merge = "front", which joins texts the wrong way.   *)
(***************************************************************************)
EXTENDS GlobLang

CONSTANTS Parts, MaxParts, Merge

PartsQ == {<<97>>, <<97,98>>, <<98>>, <<1103>>, <<63>>, <<63,63>>, <<42>>, <<42,63>>, <<91,97,98,93>>, <<123,97,44,98,125>>, <<123,97,63,44,98,125>>, <<123,44,97,125>>}
PartsT == PartsQ \cup {<<91,97,1103,93>>, <<123,42,97,44,98,125>>, <<1103,97>>, <<63,42>>, <<42,42,42>>}

VARIABLES list, did, n
vars == <<list, did, n>>

\* items: [t |-> "text", v |-> symbols], [t |-> "any"/"star", n |-> count], [t |-> "other", e |-> element]
Item(e) == CASE e.k = "lit" -> [t |-> "text", v |-> <<e.c>>]
             [] e.k = "any" -> [t |-> "any", n |-> 1]
             [] e.k = "star" -> [t |-> "star", n |-> 0]
             [] OTHER -> [t |-> "other", e |-> e]

Wild(x) == x.t \in {"any", "star"}

Merged(x, y) ==
  IF x.t = "text" THEN [t |-> "text", v |-> IF Merge = "front" /\ Len(x.v) = 1 THEN y.v \o x.v ELSE x.v \o y.v]
  ELSE IF x.t = "any" /\ y.t = "any" THEN [t |-> "any", n |-> x.n + y.n]
  ELSE [t |-> "star", n |-> IF Merge = "star" THEN (IF y.t = "star" THEN y.n ELSE x.n) ELSE x.n + y.n]

Joins(x, y) == (x.t = "text" /\ y.t = "text") \/ (Wild(x) /\ Wild(y))

Put(ls, x) ==
  IF ls # <<>> /\ Joins(ls[Len(ls)], x)
  THEN [ls EXCEPT ![Len(ls)] = Merged(@, x)]
  ELSE Append(ls, x)

PutAll(ls, xs) == FoldLeft(Put, ls, xs)
Items(e) == [i \in DOMAIN e |-> Item(e[i])]

Init == list = <<>> /\ did = <<>> /\ n = 0
\* element by element, or as items that were composed before
Add(p) == LET e == Parse(p).e
          IN /\ did' = did \o e /\ n' = n + 1
             /\ \/ list' = PutAll(list, Items(e))
                \/ list' = PutAll(list, PutAll(<<>>, Items(e)))
Next == n < MaxParts /\ \E p \in Parts : Add(p)
Spec == Init /\ [][Next]_vars

Rep(x, k) == [i \in 1..k |-> x]
Any1 == [k |-> "any"]
Elems(x) == CASE x.t = "text" -> [i \in DOMAIN x.v |-> [k |-> "lit", c |-> x.v[i]]]
              [] x.t = "any" -> Rep(Any1, x.n)
              [] x.t = "star" -> <<[k |-> "star"]>> \o Rep(Any1, x.n)
              [] OTHER -> <<x.e>>
All(ls) == FoldLeft(LAMBDA a, x : a \o Elems(x), <<>>, ls)

SameLanguage == LangCompare(All(list), did) # "different"
NoNeighbours == \A i \in 1..Len(list) - 1 : ~Joins(list[i], list[i + 1])
\* grouping does not matter
OneForm == list = PutAll(<<>>, Items(did))
Lo(x) == MinLen(Elems(x))
Hi(x) == MaxLen(Elems(x))
SumLo == FoldLeft(LAMBDA a, x : a + Lo(x), 0, list)
SumHi == FoldLeft(LAMBDA a, x : IF a = INF \/ Hi(x) = INF THEN INF ELSE a + Hi(x), 0, list)
Bounded == SumLo = MinLen(did) /\ SumHi = MaxLen(did)
=============================================================================
