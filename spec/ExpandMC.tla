------------------------------ MODULE ExpandMC ------------------------------
(***************************************************************************)
(* Step-by-step expansion of one parsed expression, again and again with   *)
(* different limits.  Every part keeps the position of its current choice  *)
(* (0: none); the positions outlive a call.  A call goes down the parts    *)
(* with a frame for each - what is left of the limit, the text put         *)
(* together so far - and comes back to a part for its next choice.         *)
(*                                                                         *)
(* Checked: every call gives the results of the definition (Expand.tla),   *)
(* whatever was called before; at its end all parts are as before it; the  *)
(* unlimited expansion has the meaning of the expression read as a glob.   *)
(* With Restart = FALSE a part whose first choice was tried is not put     *)
(* back, which must be noticed.                                            *)
(***************************************************************************)
EXTENDS ExpandLang, TLC, Json

CONSTANTS Pieces, MaxPieces, Maxes, Depths, MaxCalls, Restart, Emit

PiecesQ == {<<97>>, <<46>>, <<123,97,44,98,125>>, <<123,97,44,98,46,99,44,125>>, <<91,97,45,99,93>>, <<42>>, <<91>>, <<125>>}
PiecesT == PiecesQ \cup {<<123,97,125>>, <<123,125>>, <<91,98,93>>, <<91,93>>, <<91,99,45,97,93>>, <<63>>, <<123>>, <<93>>, <<123,44,125>>, <<91,97,98,45,93>>, <<98,46,99>>}
PiecesG == {<<97>>, <<46>>, <<123,97,44,98,125>>, <<91,97,45,99,93>>, <<42>>}

RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flatten(Tail(q))
Texts == {Flatten(q) : q \in UNION {[1..n -> Pieces] : n \in 0..MaxPieces}}

Minus == -1
AllMaxes == {-1, 0, 1, 2, 3, 5}
FewMaxes == {-1, 0, 2, 3}
GenMaxes == {-1, 2, 3}

VARIABLES s, p,    \* the text and its parts
          pos,     \* current choice of every part
          call,    \* the call that is running, or none
          fr,      \* frames
          out,     \* results of the last call
          hist     \* calls
vars == <<s, p, pos, call, fr, out, hist>>
NoCall == [m |-> 0, d |-> 0, t |-> FALSE]

Init == /\ s \in Texts /\ p = Parts(s) /\ pos = [k \in DOMAIN p |-> 0]
        /\ call = NoCall /\ fr = <<>> /\ out = <<>> /\ hist = <<>>

\* the frame of part k, entered with what is left of the limits
Frame(k, m, n, d, b) ==
  IF k > Len(p) THEN [k |-> k, m |-> m, n |-> n, d |-> d, b |-> b, done |-> FALSE]
  ELSE LET nn == IF m > 0 THEN n * Len(p[k].c) ELSE n
           m1 == IF m > 0 /\ m < nn THEN 0 ELSE m
           dd == IF d > 0 /\ p[k].t # "pick" THEN d - Dots(p[k].b) ELSE d
           m2 == IF d > 0 /\ p[k].t # "pick" /\ dd <= 1 THEN 0 ELSE m1
       IN [k |-> k, m |-> m2, n |-> nn, d |-> dd, b |-> b, done |-> FALSE]

Top == fr[Len(fr)]
Pop == To(fr, Len(fr) - 1)
Push(b) == Append([fr EXCEPT ![Len(fr)].done = TRUE], Frame(Top.k + 1, Top.m, Top.n, Top.d, b))

Begin == /\ fr = <<>> /\ Len(hist) < MaxCalls
         /\ \E m \in Maxes, d \in Depths, t \in BOOLEAN :
              LET c == [m |-> m, d |-> d, t |-> t]
              IN /\ call' = c /\ hist' = Append(hist, c)
                 /\ fr' = <<Frame(1, m, 1, IF d > 0 THEN d + 1 ELSE d, <<>>)>>
         /\ out' = <<>> /\ UNCHANGED <<s, p, pos>>

Done1 == /\ fr # <<>> /\ Top.k > Len(p)
         /\ out' = Append(out, Top.b) /\ fr' = Pop /\ UNCHANGED <<s, p, pos, call, hist>>
Copy == /\ fr # <<>> /\ Top.k <= Len(p) /\ Top.m = 0
        /\ fr' = IF Top.done THEN Pop ELSE Push(Top.b \o p[Top.k].b)
        /\ UNCHANGED <<s, p, pos, call, out, hist>>
Choose1 == /\ fr # <<>> /\ Top.k <= Len(p) /\ Top.m # 0
           /\ LET k == Top.k
                  last == pos[k] = Len(p[k].c)
                  tried == call.t /\ Top.done
              IN IF last \/ tried
                 THEN fr' = Pop /\ pos' = [pos EXCEPT ![k] = IF tried /\ ~last /\ ~Restart THEN pos[k] ELSE 0]
                 ELSE fr' = Push(Top.b \o p[k].c[pos[k] + 1]) /\ pos' = [pos EXCEPT ![k] = pos[k] + 1]
           /\ UNCHANGED <<s, p, call, out, hist>>

Next == Begin \/ Done1 \/ Copy \/ Choose1
Spec == Init /\ [][Next]_vars /\ WF_vars(Done1 \/ Copy \/ Choose1)

Want == Expanded(s, call.m, call.d, call.t)
Ended == fr = <<>> /\ hist # <<>>
Exact == Ended => out = Want
InOrder == hist # <<>> => StartsWith(Want, out)
AtRest == fr = <<>> => \A k \in DOMAIN pos : pos[k] = 0
WithinLimit == call.m > 0 /\ hist # <<>> => Len(out) <= call.m
Meaning == hist = <<>> => Language(s, Expanded(s, -1, 0, FALSE))
Terminates == [](fr # <<>> => <>(fr = <<>>))

\* complete histories for the replay on the real code
Gen == (Emit /\ fr = <<>> /\ Len(hist) = MaxCalls) => PrintT("GEN " \o ToJson([s |-> s, c |-> hist]))
=============================================================================
