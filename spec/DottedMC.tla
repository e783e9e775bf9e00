------------------------------ MODULE DottedMC ------------------------------
(***************************************************************************)
(* The tree of the dotted-glob matcher: one tree per number of levels, one *)
(* node per distinct level under a node.  Levels without wildcards are     *)
(* looked up by the text, the others are tried one after another.  A path  *)
(* is cut at its dots and the tree is gone down level by level with all    *)
(* nodes that matched so far.                                              *)
(*                                                                         *)
(* Checked: the nodes reached are exactly those whose levels match, every  *)
(* dotted glob is reported exactly once, and never when the plain meaning  *)
(* of a single dotted glob (Dotted.tla) says otherwise; matching alone     *)
(* with bounds of the length never loses a path.  With Shadow = TRUE a     *)
(* literal level hides the others, which must be noticed.                  *)
(***************************************************************************)
EXTENDS Dotted

CONSTANTS Lvl,       \* level globs (normalized texts)
          MaxLevels, MaxGlobs, Parts, MaxParts, Shadow

LvlQ == {<<97>>, <<98>>, <<42>>, <<97,42>>, <<123,97,44,98,125>>, <<63>>}
LvlS == {<<97>>, <<42>>, <<97,42>>, <<123,97,44,98,125>>}
LvlT == LvlQ \cup {<<97,98>>, <<91,97,98,93,98>>, <<42,98>>}
PartsQ == {<<97>>, <<98>>, <<97,98>>, <<>>}

Globs == UNION {[1..n -> Lvl] : n \in 1..MaxLevels}
Plain(t) == \A i \in DOMAIN t : t[i] \notin Meta

VARIABLES added,  \* sequence of level sequences
          path,   \* parts of the path
          dot,    \* the path has one more dot at the end
          pc, act, out
vars == <<added, path, dot, pc, act, out>>

Text(l) == Join(l, <<DOT>>)
PathText == Text(path) \o (IF dot THEN <<DOT>> ELSE <<>>)

Init == /\ added = <<>> /\ path \in UNION {[1..n -> Parts] : n \in 1..MaxParts} /\ dot \in BOOLEAN
        /\ pc = "add" /\ act = <<>> /\ out = <<>>

Add == /\ pc = "add" /\ Len(added) < MaxGlobs
       /\ \E g \in Globs \ RangeOf(added) : added' = Append(added, g)
       /\ UNCHANGED <<path, dot, pc, act, out>>

\* nodes: the beginnings of what was added, kept apart by the number of levels
Nodes == UNION {{<<Len(g), To(g, k)>> : k \in 0..Len(g)} : g \in RangeOf(added)}
Childs(q) == {c \in Nodes : c[1] = q[1] /\ Len(c[2]) = Len(q[2]) + 1 /\ To(c[2], Len(q[2])) = q[2]}

\* cutting: the levels of the text, none of them empty
Cut == IF dot \/ path[Len(path)] # <<>> THEN path ELSE To(path, Len(path) - 1)
Start == /\ pc = "add" /\ UNCHANGED <<added, path, dot, out>>
         /\ IF Cut = <<>> \/ ~NoEmpty(Cut) \/ <<Len(Cut), <<>>>> \notin Nodes
            THEN pc' = "done" /\ act' = <<>>
            ELSE pc' = "level" /\ act' = << <<Len(Cut), <<>>>> >>

Level(q, part) ==
  LET same == {c \in Childs(q) : Plain(c[2][Len(c[2])]) /\ c[2][Len(c[2])] = part}
      other == {c \in Childs(q) : ~Plain(c[2][Len(c[2])]) /\ Matches(Parse(c[2][Len(c[2])]).e, part)}
  IN SetToSeq(same) \o (IF Shadow /\ same # {} THEN <<>> ELSE SetToSeq(other))

Depth == IF act = <<>> THEN 0 ELSE Len(act[1][2])
Down == /\ pc = "level" /\ UNCHANGED <<added, path, dot>>
        /\ LET nx == FoldLeft(LAMBDA a, q : a \o Level(q, Cut[Depth + 1]), <<>>, act)
           IN IF nx = <<>> THEN pc' = "done" /\ act' = nx /\ UNCHANGED out
              ELSE IF Depth + 1 = Len(Cut)
                THEN pc' = "done" /\ act' = nx
                     /\ out' = [i \in DOMAIN nx |-> CHOOSE n \in DOMAIN added : added[n] = nx[i][2]]
                ELSE pc' = "level" /\ act' = nx /\ UNCHANGED out

Next == Add \/ Start \/ Down \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Down)

Alone(g) == DMatches([i \in DOMAIN g |-> Parse(g[i]).e], PathText)
Want == {n \in DOMAIN added : Alone(added[n])}
Exact == pc = "done" => RangeOf(out) = Want
OnceEach == Len(out) = Cardinality(RangeOf(out))
Reached == pc = "level" => RangeOf(act) = {q \in Nodes : q[1] = Len(Cut) /\ Len(q[2]) = Depth
                                             /\ \A i \in DOMAIN q[2] : Matches(Parse(q[2][i]).e, Cut[i])}
\* bounds of the length of the dotted text
InBounds(g) == LET l == DParse(Text(g)).l  n == Bytes(Text(Cut))
               IN DMin(l) <= n /\ (DMax(l) = INF \/ n <= DMax(l))
BoundsOK == \A n \in DOMAIN added : Alone(added[n]) => InBounds(added[n])
\* reading the dotted text of a glob gives its levels
ReadBack == \A n \in DOMAIN added : LET p == DParse(Text(added[n]))
                                    IN p.ok /\ p.l = [i \in DOMAIN added[n] |-> Parse(added[n][i]).e]
Terminates == <>(pc = "done")
=============================================================================
