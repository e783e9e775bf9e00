----------------------------- MODULE TagTreeMC -----------------------------
(***************************************************************************)
(* The tree of the tag-query matcher: a query is the path of its sorted    *)
(* terms; the children of a node are grouped by the key of their term and  *)
(* the groups are kept in the order of the keys.  Tags in slice form are   *)
(* searched by halving; the position of the last key found is where the    *)
(* next search begins, as the groups come in the order of the keys.        *)
(*                                                                         *)
(* Checked: the search finds a key exactly when it is there, the groups    *)
(* stay in order, and every query is reported exactly once when all its    *)
(* terms are satisfied (Batch.tla).  With Hint = "group" the number of the *)
(* group is taken for a position of the tags, which must be noticed.       *)
(***************************************************************************)
EXTENDS Series

CONSTANTS Keys, Ops, Values, TermValues, MaxTerms, MaxQueries, TagKeys, MaxTags, Hint

OnlyX == {<<120>>}
ValuesQ == {<<120>>, <<121>>}
KeysQ == {DNAME, <<97>>, <<99>>}
TagKeysQ == {DNAME, <<97>>, <<98>>, <<99>>, <<100>>}

Terms == {[k |-> k, o |-> o, v |-> v] : k \in Keys, o \in Ops, v \in TermValues}
Queries == {q \in UNION {[1..n -> Terms] : n \in 0..MaxTerms} : Sorted(q)}
\* values of the tags: all x but one, which may be y
TagSeqs == {t \in UNION {[1..n -> TagKeys \X Values] : n \in 1..MaxTags} :
              /\ \A i \in 1..Len(t) - 1 : KeyLess(t[i][1], t[i + 1][1])
              /\ t[1][1] = DNAME /\ Cardinality({i \in DOMAIN t : t[i][2] # <<120>>}) <= 1}

VARIABLES added, tags,
          groups,   \* node -> keys of its groups
          pc, stack, out
vars == <<added, tags, groups, pc, stack, out>>

Init == added = <<>> /\ tags \in TagSeqs /\ groups = [x \in {<<>>} |-> <<>>] /\ pc = "add" /\ stack = <<>> /\ out = <<>>

\* the groups after a key was looked for and put in, if it was missing:
\* low..high halved as long as the key may be between
RECURSIVE Slot(_, _, _, _)
Slot(ks, key, low, high) ==
  IF low > high THEN low
  ELSE LET mid == (low + high) \div 2
       IN IF KeyLess(key, ks[mid]) THEN Slot(ks, key, low, mid - 1) ELSE Slot(ks, key, mid + 1, high)
WithKey(ks, key) == IF key \in RangeOf(ks) THEN ks
                    ELSE LET n == Slot(ks, key, 1, Len(ks)) IN To(ks, n - 1) \o <<key>> \o From(ks, n)

Add == /\ pc = "add" /\ Len(added) < MaxQueries
       /\ \E q \in Queries \ RangeOf(added) :
            /\ added' = Append(added, q)
            /\ groups' = [x \in DOMAIN groups \cup {To(q, k) : k \in 0..Len(q)} |->
                 LET old == IF x \in DOMAIN groups THEN groups[x] ELSE <<>>
                 IN IF Len(x) < Len(q) /\ To(q, Len(x)) = x THEN WithKey(old, q[Len(x) + 1].k) ELSE old]
       /\ UNCHANGED <<tags, pc, stack, out>>

\* position of the key in the tags or 0; begins at start if that is not the first one
RECURSIVE Halve(_, _, _)
Halve(key, low, high) ==
  IF low > high THEN 0
  ELSE LET mid == (low + high) \div 2
       IN IF tags[mid][1] = key THEN mid
          ELSE IF KeyLess(key, tags[mid][1]) THEN Halve(key, low, mid - 1) ELSE Halve(key, mid + 1, high)
Find(key, start) == Halve(key, MaxI(1, start), Len(tags))

Terminal(x) == {n \in DOMAIN added : added[n] = x}
Reports(x) == SetToSeq(Terminal(x))

\* frames: <<node, group, where to begin>>
Start == /\ pc = "add" /\ pc' = "match" /\ UNCHANGED <<added, tags, groups>>
         /\ stack' = << <<<<>>, 1, 1>> >> /\ out' = Reports(<<>>)

Childs(x, key) == {c \in DOMAIN groups : Len(c) = Len(x) + 1 /\ To(c, Len(x)) = x /\ c[Len(c)].k = key}
Passes(c, n) == LET t == c[Len(c)]
                IN IF n = 0 THEN t.o \in {3, 4} ELSE (t.o \in {1, 2}) = Positive(t, tags[n][2])

Step == /\ pc = "match" /\ UNCHANGED <<added, tags, groups>>
        /\ IF stack = <<>> THEN pc' = "done" /\ UNCHANGED <<stack, out>>
           ELSE LET f == stack[Len(stack)]
                    st == To(stack, Len(stack) - 1)
                IN /\ UNCHANGED pc
                   /\ IF f[2] > Len(groups[f[1]]) THEN stack' = st /\ UNCHANGED out
                      ELSE LET key == groups[f[1]][f[2]]
                               n == Find(key, f[3])
                               next == SetToSeq({c \in Childs(f[1], key) : Passes(c, n)})
                               h == IF Hint = "group" THEN f[2] + 1 ELSE IF n = 0 THEN f[3] ELSE n
                           IN /\ stack' = Append(st, <<f[1], f[2] + 1, h>>) \o [i \in DOMAIN next |-> <<next[i], 1, 1>>]
                              /\ out' = FoldLeft(LAMBDA a, c : a \o Reports(c), out, next)

Next == Add \/ Start \/ Step \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Step)

Want == {n \in DOMAIN added : AllSatisfied(added[n], tags)}
Exact == pc = "done" => RangeOf(out) = Want
OnceEach == Len(out) = Cardinality(RangeOf(out))
NoneElse == RangeOf(out) \subseteq Want
Ordered == \A x \in DOMAIN groups : \A i \in 1..Len(groups[x]) - 1 : KeyLess(groups[x][i], groups[x][i + 1])
Grouped == \A x \in DOMAIN groups : RangeOf(groups[x]) =
             {q[Len(x) + 1].k : q \in {q \in RangeOf(added) : Len(q) > Len(x) /\ To(q, Len(x)) = x}}
FindOK == \A i \in DOMAIN stack : LET f == stack[i]
            IN f[2] <= Len(groups[f[1]]) =>
                 LET key == groups[f[1]][f[2]]  n == Find(key, f[3])
                 IN IF HasTag(tags, key) THEN n > 0 /\ tags[n][1] = key ELSE n = 0
Terminates == <>(pc = "done")
=============================================================================
