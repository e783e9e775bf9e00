------------------------------ MODULE SampleMC ------------------------------
(***************************************************************************)
(* Writing a random text of a glob: every element writes its part behind   *)
(* what the buffer has, with choices of its own.  All choices are tried.   *)
(* Checked: the text is of the language, what was in the buffer stays, and *)
(* every text of the language up to the bound can be written.  Over = TRUE *)
(* lets a class choose the symbol behind a range, which must be noticed.   *)
(***************************************************************************)
EXTENDS Glob

CONSTANTS Tokens, MaxTok, Letters, MaxRun, Prior, Over

TokensQ == {<<97>>, <<63>>, <<42>>, <<91,97,45,98,93>>, <<91,1103,93>>, <<123,97,44,98,125>>, <<123,44,98,63,125>>, <<123,98,42,44,97,125>>, <<91,98,93,123,97,44,125>>}
Words(al, n) == UNION {[1..k -> al] : k \in 0..n}
Globs == {Concat(w) : w \in Words(Tokens, MaxTok)}

SomePrior == <<120, 42>>

VARIABLES g, i, q, run, buf
vars == <<g, i, q, run, buf>>

Init == \E t \in Globs : g = Parse(t).e /\ i = 1 /\ q = <<>> /\ run = 0 /\ buf = Prior
Cur == IF q # <<>> THEN q[1] ELSE g[i]
After == IF q # <<>> THEN q' = Tail(q) /\ i' = i ELSE q' = q /\ i' = i + 1
InSet(r) == UNION {r[k][1]..r[k][2] + (IF Over THEN 1 ELSE 0) : k \in DOMAIN r}
Next ==
  /\ (q # <<>> \/ i <= Len(g)) /\ UNCHANGED g
  /\ CASE Cur.k = "lit" -> buf' = Append(buf, Cur.c) /\ After /\ run' = 0
       [] Cur.k = "any" -> (\E c \in Letters : buf' = Append(buf, c)) /\ After /\ run' = 0
       [] Cur.k = "set" -> (\E c \in InSet(Cur.r) : buf' = Append(buf, c)) /\ After /\ run' = 0
       [] Cur.k = "star" -> \/ After /\ run' = 0 /\ UNCHANGED buf
                            \/ run < MaxRun /\ run' = run + 1 /\ UNCHANGED <<q, i>>
                               /\ \E c \in Letters : buf' = Append(buf, c)
       [] OTHER -> (\E k \in DOMAIN Cur.a : q' = Cur.a[k]) /\ i' = i + 1 /\ run' = 0 /\ UNCHANGED buf
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Written == From(buf, Len(Prior) + 1)
Full == q = <<>> /\ i > Len(g)
InLanguage == Full => Matches(g, Written)
Kept == StartsWith(buf, Prior)
\* what was written so far can be completed
Begun == \E n \in 1..Len(g) + 1 : Len(Written) \in Reach(To(g, n - 1), Written, {0}) \/ q # <<>> \/ run > 0
Terminates == <>Full
=============================================================================
