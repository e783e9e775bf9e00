------------------------------- MODULE Dotted -------------------------------
(***************************************************************************)
(* Dotted globs and paths: sequences of levels separated by dots, where    *)
(* one trailing dot is ignored.                                            *)
(***************************************************************************)
EXTENDS Glob

DropTrailingDot(s) == IF s # <<>> /\ s[Len(s)] = DOT THEN To(s, Len(s) - 1) ELSE s

\* levels of a path (the empty text has none)
Levels(s) == IF s = <<>> THEN <<>> ELSE Split(DropTrailingDot(s), DOT)
LevelCount(s) == Len(Levels(s))
NoEmpty(ls) == \A i \in DOMAIN ls : ls[i] # <<>>

\* the dots are taken from the text before any bracket is looked at; a level
\* that denotes only the empty text is as empty as a missing one
DParse(s) ==
  LET ls == Levels(s)
      ps == [i \in DOMAIN ls |-> Parse(ls[i])]
  IN [ok |-> \A i \in DOMAIN ls : ls[i] # <<>> /\ ps[i].ok /\ MaxLen(ps[i].e) # 0,
      l  |-> [i \in DOMAIN ls |-> ps[i].e]]

MatchLevels(l, ps) ==
  /\ ps # <<>>
  /\ Len(l) = Len(ps)
  /\ \A i \in DOMAIN ps : Matches(l[i], ps[i])

DMatches(l, path) == NoEmpty(Levels(path)) /\ MatchLevels(l, Levels(path))

\* true bounds of the byte length of the dotted text
DMin(l) == FoldLeft(LAMBDA n, e : n + MaxI(1, MinLen(e)), 0, l)
           + MaxI(0, Len(l) - 1)
DMax(l) == FoldLeft(LAMBDA n, e : AddMax(n, MaxLen(e)), MaxI(0, Len(l) - 1), l)
=============================================================================
