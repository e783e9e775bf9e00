------------------------------- MODULE GlobMC -------------------------------
(***************************************************************************)
(* How one glob is matched, as a machine: the length of the text is looked *)
(* at first, then the literal text around the wildcards is cut off both    *)
(* ends, then the elements are scanned from the left with a stack of what  *)
(* may still be tried.                                                     *)
(*                                                                         *)
(* Frames: <<"star", i, q, p>> - a star that took the symbols up to p may  *)
(* take one more; <<"alt", i, j, p>> - the alternatives of list i from j   *)
(* on were not tried at p.  Commit says what a new star makes superfluous: *)
(* "alt" drops the star frames down to the next list (a text that cannot   *)
(* be matched after a later star cannot be matched by giving more to an    *)
(* earlier one, but it may be by another alternative); "all" drops every   *)
(* star frame, which is wrong, and is there to show that the model         *)
(* notices.                                                                *)
(*                                                                         *)
(* Checked: the machine stops and says what the meaning (Matches) says;    *)
(* the bounds and the ends never reject a text of the language.            *)
(***************************************************************************)
EXTENDS Glob

CONSTANTS Tokens,   \* texts globs are made of
          MaxTok,   \* tokens per glob
          Letters,  \* symbols of the texts
          MaxText,
          Commit

TokensQ == \* a  b  ?  *  [ab]  {a,b}  {,a}  {ab,a}  {a*,b}  {b,ab,?a}
  {<<97>>,
   <<98>>,
   <<63>>,
   <<42>>,
   <<91,97,98,93>>,
   <<123,97,44,98,125>>,
   <<123,44,97,125>>,
   <<123,97,98,44,97,125>>,
   <<123,97,42,44,98,125>>,
   <<123,98,44,97,98,44,63,97,125>>}
TokensU == \* a  я  ?  *  [aя]  {яa,a}  {,я}  {*я,a}  {a?,}
  {<<97>>,
   <<1103>>,
   <<63>>,
   <<42>>,
   <<91,97,1103,93>>,
   <<123,1103,97,44,97,125>>,
   <<123,44,1103,125>>,
   <<123,42,1103,44,97,125>>,
   <<123,97,63,44,125>>}
TokensX == \* a  *  [a]  {b,aba}
  {<<97>>,
   <<42>>,
   <<91,97,93>>,
   <<123,98,44,97,98,97,125>>}

VARIABLES g,     \* elements of the glob
          s,     \* the text
          pc,    \* "bounds", "ends", "scan", "fail", "done"
          lo, hi,   \* elements left to be scanned
          b, f,     \* symbols left: b+1..f
          i, p,     \* next element, symbols consumed
          q,        \* rest of the alternative taken, scanned before element i
          stack, res
vars == <<g, s, pc, lo, hi, b, f, i, p, q, stack, res>>

Words(al, n) == UNION {[1..k -> al] : k \in 0..n}
Globs == {Concat(w) : w \in Words(Tokens, MaxTok)}

IsLit(e) == e.k = "lit"

Init ==
  /\ \E t \in Globs : /\ Parse(t).ok /\ g = Parse(t).e
  /\ s \in Words(Letters, MaxText)
  /\ pc = "bounds" /\ lo = 1 /\ hi = Len(g) /\ b = 0 /\ f = Len(s)
  /\ i = 1 /\ p = 0 /\ q = <<>> /\ stack = <<>> /\ res = FALSE

Bounds ==
  /\ pc = "bounds"
  /\ IF Bytes(s) < MinLen(g) \/ (MaxLen(g) # INF /\ Bytes(s) > MaxLen(g))
     THEN pc' = "done" /\ res' = FALSE
     ELSE pc' = "ends" /\ UNCHANGED res
  /\ UNCHANGED <<g, s, lo, hi, b, f, i, p, q, stack>>

\* literal symbols at both ends are compared and cut
Ends ==
  /\ pc = "ends"
  /\ IF lo <= hi /\ IsLit(g[lo])
     THEN IF b < f /\ s[b + 1] = g[lo].c
          THEN lo' = lo + 1 /\ b' = b + 1 /\ UNCHANGED <<hi, f, pc, res, i, p>>
          ELSE pc' = "done" /\ res' = FALSE /\ UNCHANGED <<lo, hi, b, f, i, p>>
     ELSE IF lo <= hi /\ IsLit(g[hi])
     THEN IF b < f /\ s[f] = g[hi].c
          THEN hi' = hi - 1 /\ f' = f - 1 /\ UNCHANGED <<lo, b, pc, res, i, p>>
          ELSE pc' = "done" /\ res' = FALSE /\ UNCHANGED <<lo, hi, b, f, i, p>>
     ELSE pc' = "scan" /\ i' = lo /\ p' = b /\ UNCHANGED <<lo, hi, b, f, res>>
  /\ UNCHANGED <<g, s, q, stack>>

RECURSIVE Drop(_)
Drop(st) == IF st = <<>> THEN st
            ELSE IF st[Len(st)][1] = "star" THEN Drop(To(st, Len(st) - 1)) ELSE st
Committed(st) == CASE Commit = "alt" -> Drop(st)
                   [] Commit = "all" -> SelectSeq(st, LAMBDA x : x[1] # "star")
                   [] OTHER -> st

One(e) == p < f /\ (e.k = "any" \/ (e.k = "lit" /\ s[p + 1] = e.c)
                    \/ (e.k = "set" /\ InRanges(s[p + 1], e.r)))

\* the element scanned next
Cur == IF q # <<>> THEN q[1] ELSE g[i]
AfterCur == IF q # <<>> THEN q' = Tail(q) /\ i' = i ELSE q' = q /\ i' = i + 1

Scan ==
  /\ pc = "scan"
  /\ UNCHANGED <<g, s, lo, hi, b, f>>
  /\ IF q = <<>> /\ i > hi
     THEN /\ IF p = f THEN pc' = "done" /\ res' = TRUE ELSE pc' = "fail" /\ UNCHANGED res
          /\ UNCHANGED <<i, p, q, stack>>
     ELSE CASE Cur.k = "star" ->
                 /\ AfterCur
                 /\ stack' = Append(Committed(stack), <<"star", i', q', p>>)
                 /\ UNCHANGED <<p, pc, res>>
            [] Cur.k = "alt" ->
                 /\ stack' = Append(stack, <<"alt", i, 2, p>>)
                 /\ q' = Cur.a[1] /\ i' = i + 1
                 /\ UNCHANGED <<p, pc, res>>
            [] OTHER ->
                 IF One(Cur) THEN AfterCur /\ p' = p + 1 /\ UNCHANGED <<pc, res, stack>>
                 ELSE pc' = "fail" /\ UNCHANGED <<i, p, q, res, stack>>

Fail ==
  /\ pc = "fail"
  /\ UNCHANGED <<g, s, lo, hi, b, f>>
  /\ IF stack = <<>> THEN pc' = "done" /\ res' = FALSE /\ UNCHANGED <<i, p, q, stack>>
     ELSE LET t == stack[Len(stack)]  st == To(stack, Len(stack) - 1)
          IN /\ UNCHANGED res
             /\ IF t[1] = "star"
                THEN IF t[4] < f
                     THEN /\ stack' = Append(st, <<"star", t[2], t[3], t[4] + 1>>)
                          /\ i' = t[2] /\ q' = t[3] /\ p' = t[4] + 1 /\ pc' = "scan"
                     ELSE stack' = st /\ UNCHANGED <<i, p, q, pc>>
                ELSE IF t[3] <= Len(g[t[2]].a)
                     THEN /\ stack' = Append(st, <<"alt", t[2], t[3] + 1, t[4]>>)
                          /\ i' = t[2] + 1 /\ q' = g[t[2]].a[t[3]] /\ p' = t[4] /\ pc' = "scan"
                     ELSE stack' = st /\ UNCHANGED <<i, p, q, pc>>

Stop == pc = "done" /\ UNCHANGED vars
Next == Bounds \/ Ends \/ Scan \/ Fail \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == pc = "done" => res = Matches(g, s)
\* nothing of the language is rejected before the scan
EarlyOK == (pc = "done" /\ stack = <<>> /\ ~res) => ~Matches(g, s)
BoundsOK == Matches(g, s) => /\ MinLen(g) <= Bytes(s)
                             /\ MaxLen(g) = INF \/ Bytes(s) <= MaxLen(g)
StackOK == Len(stack) <= 2 * Len(g) + 2
Terminates == <>(pc = "done")
=============================================================================
