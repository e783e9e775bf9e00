------------------------------- MODULE TrieMC -------------------------------
(***************************************************************************)
(* The tree of the glob matcher: a glob is a path of edges from the root - *)
(* the literal text behind its last wildcard (looked at first, from the    *)
(* end), the literal text before its first one, then element by element;   *)
(* the node at the end of the path has the index of the glob.  Globs are   *)
(* added one by one in every order, sharing what paths have in common;     *)
(* then a text is matched by going down all branches.                      *)
(*                                                                         *)
(* Checked: paths of different globs differ, what was added before stays,  *)
(* and what is reported are exactly the globs whose meaning holds          *)
(* (Batch.tla).  With Roles = FALSE the two kinds of literal edges are     *)
(* mixed up when nodes are looked for, which must be noticed.              *)
(***************************************************************************)
EXTENDS Glob

CONSTANTS Pool,     \* normalized texts of globs
          MaxGlobs, Letters, MaxText, Roles

PoolQ == \* a  b  *b  b*  b*b  *  ?b  a?  {a,b}  {a,b}b  a{b,bb}*  *{a,b}
  {<<97>>, <<98>>, <<42,98>>, <<98,42>>, <<98,42,98>>, <<42>>, <<63,98>>, <<97,63>>, <<123,97,44,98,125>>,
   <<123,97,44,98,125,98>>, <<97,123,98,44,98,98,125,42>>, <<42,123,97,44,98,125>>}
PoolT == PoolQ \cup \* ab  ab*  a*b  *a*  a{,b}  [ab]b  {,a}{,b}  ?*
  {<<97,98>>, <<97,98,42>>, <<97,42,98>>, <<42,97,42>>, <<97,123,44,98,125>>, <<91,97,98,93,98>>,
   <<123,44,97,125,123,44,98,125>>, <<63,42>>}

Elems(t) == Parse(t).e

\* the path of the elements e
Path(e) ==
  LET W == {i \in DOMAIN e : e[i].k # "lit"}
      text(a, b) == [i \in 1..b - a + 1 |-> e[a + i - 1].c]
      lo == MinOf(W)  hi == MaxOf(W)
  IN IF W = {} THEN <<[r |-> "front", t |-> text(1, Len(e)), e |-> <<>>]>>
     ELSE (IF hi = Len(e) THEN <<>> ELSE <<[r |-> "back", t |-> text(hi + 1, Len(e)), e |-> <<>>]>>)
          \o (IF lo = 1 THEN <<>> ELSE <<[r |-> "front", t |-> text(1, lo - 1), e |-> <<>>]>>)
          \o [i \in 1..hi - lo + 1 |-> [r |-> "elem", t |-> <<>>, e |-> <<e[lo + i - 1]>>]]

\* an edge under which a child is found
Key(x) == IF Roles \/ x.r = "elem" THEN x ELSE [x EXCEPT !.r = "text"]
KeyPath(p) == [i \in DOMAIN p |-> Key(p[i])]

VARIABLES added,  \* texts in the order of addition (the position is the index)
          node,   \* key path -> [edge, term]
          s, pc, stack, out
vars == <<added, node, s, pc, stack, out>>

Init == added = <<>> /\ node = [x \in {<<>>} |-> [edge |-> [r |-> "root"], term |-> 0]]
        /\ s \in UNION {[1..k -> Letters] : k \in 0..MaxText} /\ pc = "add" /\ stack = <<>> /\ out = <<>>

Insert(p, n) ==
  LET new == {KeyPath(To(p, k)) : k \in 1..Len(p)}
      edge(q) == IF q \in DOMAIN node THEN node[q].edge ELSE p[Len(q)]
      term(q) == IF q = KeyPath(p) THEN n ELSE IF q \in DOMAIN node THEN node[q].term ELSE 0
  IN node' = [q \in DOMAIN node \cup new |-> IF q = <<>> THEN node[q] ELSE [edge |-> edge(q), term |-> term(q)]]

Add == /\ pc = "add" /\ Len(added) < MaxGlobs
       /\ \E t \in Pool \ RangeOf(added) : added' = Append(added, t) /\ Insert(Path(Elems(t)), Len(added) + 1)
       /\ UNCHANGED <<s, pc, stack, out>>

Children(q) == {c \in DOMAIN node : Len(c) = Len(q) + 1 /\ To(c, Len(q)) = q}

\* where the part s[b+1..f] may be left by an edge: set of <<b, f>>
Leave(x, b, f) ==
  CASE x.r = "front" -> IF f - b >= Len(x.t) /\ SubSeq(s, b + 1, b + Len(x.t)) = x.t THEN {<<b + Len(x.t), f>>} ELSE {}
    [] x.r = "back"  -> IF f - b >= Len(x.t) /\ SubSeq(s, f - Len(x.t) + 1, f) = x.t THEN {<<b, f - Len(x.t)>>} ELSE {}
    [] x.r = "elem"  -> {<<p, f>> : p \in Reach1(To(s, f), {b}, x.e[1])}

\* visits of the children of node q with the rest b, f
Visits(q, b, f) == UNION {{<<c, r[1], r[2]>> : r \in Leave(node[c].edge, b, f)} : c \in Children(q)}

Start == /\ pc = "add" /\ pc' = "match" /\ stack' = SetToSeq(Visits(<<>>, 0, Len(s)))
         /\ UNCHANGED <<added, node, s, out>>

Visit == /\ pc = "match"
         /\ IF stack = <<>> THEN pc' = "done" /\ UNCHANGED <<stack, out>>
            ELSE LET v == stack[Len(stack)]
                 IN /\ stack' = To(stack, Len(stack) - 1) \o SetToSeq(Visits(v[1], v[2], v[3]))
                    /\ out' = IF v[2] = v[3] /\ node[v[1]].term > 0 THEN Append(out, node[v[1]].term) ELSE out
                    /\ UNCHANGED pc
         /\ UNCHANGED <<added, node, s>>

Next == Add \/ Start \/ Visit \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Visit)

Want == {n \in DOMAIN added : Matches(Elems(added[n]), s)}
Exact == pc = "done" => RangeOf(out) = Want
NoneElse == RangeOf(out) \subseteq Want
\* every glob has its own terminal
Terminals == \A n \in DOMAIN added : LET q == KeyPath(Path(Elems(added[n])))
                                     IN q \in DOMAIN node /\ node[q].term = n
\* the tree has no node that no glob needs
NoWaste == DOMAIN node = UNION {{KeyPath(To(Path(Elems(added[n])), k)) : k \in 0..Len(Path(Elems(added[n])))} : n \in DOMAIN added}
                         \cup {<<>>}
Kept == [][DOMAIN node \subseteq DOMAIN node' /\ \A q \in DOMAIN node : node[q].term > 0 => node'[q] = node[q]]_vars
ReadOnly == [][pc # "add" => node' = node /\ added' = added]_vars
Terminates == <>(pc = "done")
=============================================================================
