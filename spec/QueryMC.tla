------------------------------ MODULE QueryMC ------------------------------
(***************************************************************************)
(* Writing the terms of a query down and reading them again.  A query is   *)
(* built term by term; it is written with the terms in order, a quote that *)
(* no text of the term has, a blank before a value that would make another *)
(* operator, and blanks at the ends of a value in brackets.  Whatever a    *)
(* query was read from - other order, other quotes, blanks and commas      *)
(* around - the written form is the same and reads as the same terms.      *)
(* Blanks = FALSE leaves the blanks as they are, which must be noticed.    *)
(***************************************************************************)
EXTENDS Series

CONSTANTS Keys, Values, Ops, MaxTerms, Blanks

KeysQ == {DNAME, <<97>>, <<98,39>>}
ValuesQ == {<<120>>, <<126,120>>, <<120,32>>, <<32>>, <<91,97,45,99,93>>, <<34>>, <<>>, <<61,120>>}
ValuesR == {<<120>>, <<94,97,42,36>>}
OpsQ == 1..4

VARIABLES given, ts
vars == <<given, ts>>

Terms == {[k |-> k, o |-> o, v |-> v] : k \in Keys, o \in Ops, v \in Values}
\* what reading can yield: the value of a regular expression is trimmed
Readable(t) == /\ ~(Has(t.k \o t.v, SQUOTE) /\ Has(t.k \o t.v, DQUOTE))
               /\ t.o \in {2, 4} => Trim(t.v, WhiteSpace) = t.v /\ ReParse(t.v).st = "ok"

Insert(s, t) == LET before == {n \in DOMAIN s : TermLE(s[n], t)}
                    n == IF before = {} THEN 0 ELSE MaxOf(before)
                IN To(s, n) \o <<t>> \o From(s, n + 1)

Init == given = <<>> /\ ts = <<>>
Next == /\ Len(given) < MaxTerms
        /\ \E t \in Terms : Readable(t) /\ given' = Append(given, t) /\ ts' = Insert(ts, t)
Spec == Init /\ [][Next]_vars

Op(o) == CASE o = 1 -> <<61>> [] o = 2 -> <<61,126>> [] o = 3 -> <<33,61>> [] o = 4 -> <<33,61,126>>
Bracketed(v) ==
  LET f == v # <<>> /\ v[1] \in WhiteSpace
      w == IF f THEN Tail(v) ELSE v
      l == w # <<>> /\ w[Len(w)] \in WhiteSpace
  IN (IF f THEN <<91>> \o <<v[1]>> \o <<93>> ELSE <<>>)
     \o (IF l THEN To(w, Len(w) - 1) \o <<91>> \o <<w[Len(w)]>> \o <<93>> ELSE w)
WriteValue(t) == IF t.o \in {2, 4} THEN t.v
                 ELSE (IF t.v # <<>> /\ t.v[1] = TILDE THEN <<32>> ELSE <<>>)
                      \o (IF Blanks THEN Bracketed(t.v) ELSE t.v)
WriteTerm(t) == LET q == IF Has(t.k \o t.v, SQUOTE) THEN <<DQUOTE>> ELSE <<SQUOTE>>
                IN q \o t.k \o Op(t.o) \o WriteValue(t) \o q
Write(s) == HEAD \o Join([i \in DOMAIN s |-> WriteTerm(s[i])], <<44>>) \o <<41>>
\* another way of writing: blanks everywhere, empty arguments
WriteLoose(s) == <<32>> \o HEAD \o <<32,44,39,39>> \o Concat([i \in DOMAIN s |->
     LET q == IF Has(s[i].k \o s[i].v, SQUOTE) THEN <<DQUOTE>> ELSE <<SQUOTE>>
     IN q \o <<32>> \o s[i].k \o <<32>> \o Op(s[i].o) \o <<32>> \o WriteValue(s[i]) \o <<32>> \o q \o <<32,44,32>>]) \o <<41>>

SortedTerms(s) == FoldLeft(Insert, <<>>, s)
Reads(text, s) == LET q == Query(text) IN q.st = "ok" /\ SameTerms(q.t, s)

InOrder == Sorted(ts) /\ SameTerms(ts, given)
RoundTrip == Reads(Write(ts), ts) /\ Reads(WriteLoose(given), given)
\* the written form does not depend on the order the terms were given in
OneForm == \A i, j \in DOMAIN given : i < j =>
             SortedTerms([given EXCEPT ![i] = given[j], ![j] = given[i]]) = ts
\* name is another way to write __name__
Named == \A i \in DOMAIN ts : ts[i].k = DNAME =>
           Term(<<110,97,109,101>> \o Op(ts[i].o) \o WriteValue(ts[i])) = Term(DNAME \o Op(ts[i].o) \o WriteValue(ts[i]))
=============================================================================
