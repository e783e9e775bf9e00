------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Result stores: what is stored since the last Init, in order.            *)
(***************************************************************************)
EXTENDS Text

NoReports == <<>>                \* sequence of [n |-> index, s |-> text]

After(st, op) == CASE op.k = "init"  -> NoReports
                   [] op.k = "grow"  -> st
                   [] op.k = "store" -> Append(st, [n |-> op.n, s |-> op.s])

Indexes(st) == [i \in DOMAIN st |-> st[i].n]
Texts(st) == [i \in DOMAIN st |-> st[i].s]
Minimum(st) == IF st = <<>> THEN -1 ELSE MinOf(RangeOf(Indexes(st)))
=============================================================================
