----------------------------- MODULE ExpandLang -----------------------------
(***************************************************************************)
(* An expression read as a glob means what the list of its unlimited       *)
(* expansions means.                                                       *)
(***************************************************************************)
EXTENDS Expand, GlobLang

\* flat globs can be put together as the alternatives of one list
Flat(e) == \A i \in DOMAIN e : e[i].k # "alt"

\* classes made of dashes only mean different things to expansion and globs
DashClass(s) == \E i, j \in DOMAIN s : /\ i < j /\ s[i] = LBRACKET /\ s[j] = RBRACKET
                                       /\ \A k \in i + 1..j - 1 : s[k] = DASH

\* a bracket or wildcard symbol taken from a class is not a wildcard there
ClassOfMeta(e) == \E i \in DOMAIN e : e[i].k = "set" /\ \E c \in Meta : InRanges(c, e[i].r)

Language(s, rs) ==
  LET p == Parse(s)
      q == [n \in DOMAIN rs |-> Parse(rs[n])]
  IN \/ ~p.ok \/ DashClass(s) \/ ClassOfMeta(p.e) \/ Len(rs) > 12 \/ FoldLeft(LAMBDA a, x : a + Len(x), 0, rs) > 60
     \/ \E n \in DOMAIN q : ~q[n].ok \/ ~Flat(q[n].e)
     \/ LangCompare(p.e, << [k |-> "alt", a |-> [n \in DOMAIN q |-> q[n].e]] >>) # "different"
=============================================================================
