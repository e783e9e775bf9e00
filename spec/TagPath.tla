------------------------------ MODULE TagPath ------------------------------
(***************************************************************************)
(* Tagged paths over bytes: name SEP k=v PSEP k=v ...                      *)
(***************************************************************************)
EXTENDS Escape

EQB == 61
NAMEKEY == <<95,95,110,97,109,101,95,95>>                    \* __name__

(* SEP separates the name, PSEP the pairs (one PSEP at the end is ignored).  *)
(* Decoding stops at a pair without =, which is an error; the pairs before   *)
(* it are still given.                                                       *)
DecodePath(s, SEP, PSEP) ==
  LET i == Pos(s, SEP)
      name == IF i = 0 THEN s ELSE To(s, i - 1)
      rest == IF i = 0 THEN <<>> ELSE From(s, i + 1)
      args == IF rest # <<>> /\ rest[Len(rest)] = PSEP THEN To(rest, Len(rest) - 1) ELSE rest
      pairs == IF rest = <<>> THEN <<>> ELSE Split(args, PSEP)
      bad == {n \in DOMAIN pairs : ~Has(pairs[n], EQB)}
      good == IF bad = {} THEN pairs ELSE To(pairs, MinOf(bad) - 1)
      kv(p) == LET j == Pos(p, EQB)
               IN <<Unescape(To(p, j - 1)), Unescape(From(p, j + 1))>>
  IN [err |-> i = 0 \/ Has(name, EQB) \/ bad # {},
      tags |-> << <<NAMEKEY, Unescape(name)>> >> \o [n \in DOMAIN good |-> kv(good[n])]]

\* the map of a sequence of pairs (set of pairs, the last one wins)
MapOf(tags) ==
  {tags[n] : n \in {n \in DOMAIN tags :
                      \A m \in n + 1..Len(tags) : tags[m][1] # tags[n][1]}}
=============================================================================
