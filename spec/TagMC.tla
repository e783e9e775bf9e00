------------------------------- MODULE TagMC -------------------------------
(***************************************************************************)
(* A tag query against the tags of a path in slice form.  Both are sorted  *)
(* (Series.tla), so one cursor walks the tags while the terms are looked   *)
(* at in order; it stops before the first tag whose key is not less than   *)
(* the key of the term and stays there, as more terms may have the key.    *)
(* Bite says what else the cursor does: "no" nothing; "term" - it moves     *)
(* behind the tag a term was compared with; "miss" - a tag with another    *)
(* key is skipped when the key of a term is missing.  The last two lose    *)
(* tags and must be noticed.                                               *)
(*                                                                         *)
(* Also the sorting of the terms (insertion one by one), and the map form  *)
(* where every term looks for its own key.                                 *)
(***************************************************************************)
EXTENDS Series

CONSTANTS Keys, Values, TagValues, MaxTerms, MaxTags, Bite

KeysQ == {DNAME, <<97>>, <<98>>, <<99>>}
ValuesQ == {<<120>>, <<120,42>>, <<>>}
TagValuesQ == {<<120>>, <<121>>}
TagValuesT == {<<120>>, <<121>>, <<>>}

Terms == {[k |-> k, o |-> o, v |-> v] : k \in Keys, o \in 1..4, v \in Values}

\* tags in the order of the keys, __name__ first, keys unique
TagSeqs == {t \in UNION {[1..n -> Keys \X TagValues] : n \in 0..MaxTags} :
              \A i \in 1..Len(t) - 1 : KeyLess(t[i][1], t[i + 1][1])}

VARIABLES given,  \* terms in the order they are written
          ts,     \* terms sorted so far
          tags, i, c, res, pc
vars == <<given, ts, tags, i, c, res, pc>>

Init == /\ given \in UNION {[1..n -> Terms] : n \in 0..MaxTerms} /\ tags \in TagSeqs
        /\ ts = <<>> /\ i = 1 /\ c = 1 /\ res = TRUE /\ pc = "sort"

\* a term goes behind those that are not greater
Sort == /\ pc = "sort" /\ UNCHANGED <<given, tags, i, c, res>>
        /\ IF Len(ts) = Len(given) THEN pc' = "match" /\ UNCHANGED ts
           ELSE LET t == given[Len(ts) + 1]
                    before == {n \in DOMAIN ts : TermLE(ts[n], t)}
                    n == IF before = {} THEN 0 ELSE MaxOf(before)
                IN ts' = To(ts, n) \o <<t>> \o From(ts, n + 1) /\ UNCHANGED pc

Test(t, v) == IF t.o \in {1, 2} THEN Positive(t, v) ELSE ~Positive(t, v)

Match == /\ pc = "match" /\ UNCHANGED <<given, ts, tags>>
         /\ IF i > Len(ts) THEN pc' = "done" /\ UNCHANGED <<i, c, res>>
            ELSE IF c <= Len(tags) /\ KeyLess(tags[c][1], ts[i].k)
              THEN c' = c + 1 /\ UNCHANGED <<i, res, pc>>
            ELSE IF c <= Len(tags) /\ tags[c][1] = ts[i].k
              THEN /\ res' = Test(ts[i], tags[c][2])
                   /\ i' = i + 1
                   /\ c' = IF Bite = "term" THEN c + 1 ELSE c
                   /\ pc' = IF res' THEN "match" ELSE "done"
            ELSE /\ res' = (ts[i].o \in {3, 4})
                 /\ i' = i + 1
                 /\ c' = IF Bite = "miss" THEN c + 1 ELSE c
                 /\ pc' = IF res' THEN "match" ELSE "done"

Next == Sort \/ Match \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Sort \/ Match)

MapForm == \A n \in DOMAIN ts : IF HasTag(tags, ts[n].k) THEN Test(ts[n], TagValue(tags, ts[n].k)) ELSE ts[n].o \in {3, 4}

Correct == pc = "done" => (res = AllSatisfied(given, tags) /\ res = MapForm)
SortedOK == Sorted(ts) /\ (pc # "sort" => SameTerms(ts, given))
\* what the cursor has left behind is not needed by the terms to come
Behind == pc = "match" => \A n \in i..Len(ts), m \in 1..c - 1 : m \in DOMAIN tags => tags[m][1] # ts[n].k
Terminates == <>(pc = "done")
=============================================================================
