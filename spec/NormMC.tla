------------------------------- MODULE NormMC -------------------------------
(***************************************************************************)
(* Normalization of a glob as rewriting of its elements, rule by rule, in  *)
(* any order and at any place:                                             *)
(*   *? -> ?*   ** -> *   alternatives and ranges are sorted, repeated     *)
(*   ones dropped, overlapping ranges put together, a list of one          *)
(*   alternative and a class of one symbol replaced by it.                 *)
(*                                                                         *)
(* Checked: no step changes the language; rewriting ends; where it ends    *)
(* depends on the glob only, not on the order of the steps, and is the     *)
(* same for all spellings of the tokens.  Lossy = TRUE also drops an       *)
(* empty alternative of a list, which must be noticed.                     *)
(***************************************************************************)
EXTENDS GlobLang, TLC, Json

CONSTANTS Classes,  \* sequence of sequences of spellings of a token
          MaxTok, Lossy, Emit

ClassesQ == << <<<<97>>>>, <<<<42>>>>, <<<<63>>>>, <<<<63,42>>, <<42,63>>>>,
               <<<<123,97,44,98,125>>, <<123,98,44,97,125>>, <<123,98,44,97,44,98,125>>, <<123,97,44,97,44,98,125>>>>,
               <<<<123,44,98,125>>, <<123,98,44,125>>, <<123,98,44,44,98,125>>>>,
               <<<<123,97,98,44,97,42,44,99,125>>, <<123,99,44,97,98,44,97,42,125>>, <<123,97,42,44,99,44,97,98,44,99,125>>, <<123,97,98,44,99,44,97,42,125>>>>,
               <<<<123,91,97,98,93,44,99,125>>, <<123,99,44,91,97,98,93,125>>>>,
               <<<<91,97,98,93>>, <<91,98,97,93>>, <<91,97,45,98,93>>, <<91,98,97,97,93>>, <<91,45,97,98,45,93>>>>,
               <<<<91,97,45,99,1103,93>>, <<91,1103,99,98,97,93>>, <<91,1103,97,45,98,45,99,93>>, <<91,98,45,99,97,98,45,99,1103,93>>>>,
               <<<<63,63,42>>, <<63,42,63>>, <<42,63,63>>>> >>
ClassesB == << <<<<97>>>>, <<<<123,44,98,125>>>>, <<<<42>>, <<42,42>>>>, <<<<123,97,125>>, <<123,97,44,97,125>>, <<91,97,93>>, <<97>>, <<91,97,97,93>>>> >>

VARIABLES w,    \* <<class, spelling>> for every token
          e     \* elements
vars == <<w, e>>

TextOf(v) == Concat([k \in DOMAIN v |-> Classes[v[k][1]][v[k][2]]])
Spellings(c) == DOMAIN Classes[c]
RECURSIVE WordsOf(_)
WordsOf(n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{Append(v, <<c, z>>) : z \in Spellings(c)} : v \in WordsOf(n - 1), c \in DOMAIN Classes}
Words == UNION {WordsOf(n) : n \in 0..MaxTok}

Elems(v) == Parse(TextOf(v)).e
Init == w \in Words /\ e = Elems(w)

\* -- an order on flat globs and ranges: by what they are written with
KeyOf(x) == CASE x.k = "lit" -> <<0, x.c>> [] x.k = "any" -> <<1>> [] x.k = "star" -> <<2>>
              [] x.k = "set" -> <<3>> \o FoldLeft(LAMBDA a, p : a \o p, <<>>, x.r) [] OTHER -> <<4>>
FlatKey(v) == FoldLeft(LAMBDA a, x : a \o KeyOf(x) \o <<-1>>, <<>>, v)
RECURSIVE LessSeq(_, _)
LessSeq(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessSeq(Tail(a), Tail(b))
LessA(a, b) == LessSeq(FlatKey(a), FlatKey(b))
Joins(x, y) == x[2] >= y[1] \/ (x[2] + 1 = y[1] /\ Utf8Len(x[2]) = Utf8Len(y[1]))
Joined(x, y) == <<x[1], MaxI(x[2], y[2])>>
LessR(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])

Without(q, k) == To(q, k - 1) \o From(q, k + 1)
Swap(q, k) == [q EXCEPT ![k] = q[k + 1], ![k + 1] = q[k]]

\* what one rule makes of the range sequence r, of the alternatives a, of an element
SetSteps(r) == {Swap(r, k) : k \in {k \in 1..Len(r) - 1 : LessR(r[k + 1], r[k])}}
               \cup {[Without(r, k + 1) EXCEPT ![k] = Joined(r[k], r[k + 1])] :
                       k \in {k \in 1..Len(r) - 1 : ~LessR(r[k + 1], r[k]) /\ Joins(r[k], r[k + 1])}}
AltSteps(a) == {Swap(a, k) : k \in {k \in 1..Len(a) - 1 : LessA(a[k + 1], a[k])}}
               \cup {Without(a, k) : k \in {k \in 1..Len(a) - 1 : a[k] = a[k + 1]}}
               \cup (IF Lossy THEN {Without(a, k) : k \in {k \in DOMAIN a : a[k] = <<>> /\ Len(a) > 1}} ELSE {})
ElemSteps(x) ==
  CASE x.k = "set" -> IF Len(x.r) = 1 /\ x.r[1][1] = x.r[1][2] THEN {<<[k |-> "lit", c |-> x.r[1][1]]>>}
                      ELSE {<<[x EXCEPT !.r = r]>> : r \in SetSteps(x.r)}
    [] x.k = "alt" -> IF Len(x.a) = 1 THEN {x.a[1]} ELSE {<<[x EXCEPT !.a = a]>> : a \in AltSteps(x.a)}
    [] OTHER -> {}
Steps(q) == UNION {{To(q, k - 1) \o y \o From(q, k + 1) : y \in ElemSteps(q[k])} : k \in DOMAIN q}
            \cup {Swap(q, k) : k \in {k \in 1..Len(q) - 1 : q[k].k = "star" /\ q[k + 1].k = "any"}}
            \cup {Without(q, k) : k \in {k \in 1..Len(q) - 1 : q[k].k = "star" /\ q[k + 1].k = "star"}}

Next == ~Emit /\ w' = w /\ e' \in Steps(e)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* -- the normal form said at once
RECURSIVE Pass(_)
Pass(r) == IF Len(r) < 2 THEN r
           ELSE IF Joins(r[1], r[2]) THEN Pass(<<Joined(r[1], r[2])>> \o From(r, 3)) ELSE <<r[1]>> \o Pass(Tail(r))
Canon1(x) ==
  CASE x.k = "set" -> LET r == Pass(SetToSortSeq(RangeOf(x.r), LessR))
                      IN IF Len(r) = 1 /\ r[1][1] = r[1][2] THEN <<[k |-> "lit", c |-> r[1][1]]>> ELSE <<[k |-> "set", r |-> r]>>
    [] x.k = "alt" -> IF Cardinality(RangeOf(x.a)) = 1 THEN x.a[1]
                      ELSE <<[k |-> "alt", a |-> SetToSortSeq(RangeOf(x.a), LessA)]>>
    [] OTHER -> <<x>>
\* runs of ? and *: all ? first, then one *
AddTo(q, x) == IF q # <<>> /\ q[Len(q)].k = "star" /\ x.k = "star" THEN q
               ELSE IF q # <<>> /\ q[Len(q)].k = "star" /\ x.k = "any" THEN To(q, Len(q) - 1) \o <<x, q[Len(q)]>>
               ELSE Append(q, x)
\* only a class that stands outside of lists is replaced: what an inlined alternative brings is looked at again
RECURSIVE Again(_, _)
Again(q, n) == LET z == FoldLeft(LAMBDA a, x : a \o Canon1(x), <<>>, q) IN IF n = 0 THEN z ELSE Again(z, n - 1)
Canon(q) == FoldLeft(AddTo, <<>>, Again(q, 1))

SameLanguage == LangCompare(Elems(w), e) # "different"
OneWay == Canon(e) = Canon(Elems(w))
Ends == Steps(e) = {} => e = Canon(Elems(w))
OneForm == Canon(Elems(w)) = Canon(Elems([k \in DOMAIN w |-> <<w[k][1], 1>>]))
Terminates == <>(Steps(e) = {})

\* all spellings of a word for the replay on the real code
RECURSIVE Respelled(_)
Respelled(v) == IF v = <<>> THEN {<<>>}
                ELSE {<< <<v[1][1], z>> >> \o x : z \in Spellings(v[1][1]), x \in Respelled(Tail(v))}
Gen == (Emit /\ e = Elems(w) /\ \A k \in DOMAIN w : w[k][2] = 1) =>
         LET O == Respelled(w) \ {w}
         IN O = {} \/ PrintT("GEN " \o ToJson([g |-> TextOf(w), v |-> SetToSeq({TextOf(z) : z \in O}), d |-> FALSE]))
=============================================================================
