------------------------------ MODULE SharedMC ------------------------------
(***************************************************************************)
(* Readers that match texts with one shared matcher, every step of every   *)
(* reader interleaved with those of the others; a reader goes through the  *)
(* globs one after the other and through their elements one after the      *)
(* other, with the set of positions reached so far.                        *)
(*                                                                         *)
(* Checked: the matcher stays as it was built and every reader gets what   *)
(* it would get alone.  Scratch says where a reader keeps its positions:   *)
(* "own" - with itself; "shared" - in a place of the matcher, as a reused  *)
(* buffer would be; "lazy" - the matcher is completed by the first reader  *)
(* (two steps).  Both variants must be noticed.                            *)
(***************************************************************************)
EXTENDS Glob

CONSTANTS Readers, Globs, Subjects, MaxCalls, Scratch

GlobsQ == << <<97,42>>, <<63,98>>, <<123,97,98,44,98,125,42>> >>
SubjectsQ == {<<97,98>>, <<98>>, <<>>}
GlobsT == << <<97,42>>, <<63,98>>, <<123,97,98,44,98,125,42>>, <<42,91,97,98,93>> >>

Elems == [n \in DOMAIN Globs |-> Parse(Globs[n]).e]

VARIABLES obj,     \* the shared matcher: elements of its globs
          place,   \* the place of the matcher that readers may use
          rd       \* readers: [pc, s, n glob, e element, pos, out, calls]
vars == <<obj, place, rd>>

Idle == [pc |-> "idle", s |-> <<>>, n |-> 1, e |-> 1, pos |-> {0}, out |-> {}, calls |-> 0]
Init == /\ obj = (IF Scratch = "lazy" THEN [n \in DOMAIN Elems |-> IF n = 1 THEN <<>> ELSE Elems[n]] ELSE Elems)
        /\ place = {} /\ rd = [x \in Readers |-> Idle]

Reached(x) == IF Scratch = "shared" THEN place ELSE rd[x].pos
Keep(x, P, r) == IF Scratch = "shared" THEN place' = P /\ rd' = [rd EXCEPT ![x] = r]
                 ELSE place' = place /\ rd' = [rd EXCEPT ![x] = [r EXCEPT !.pos = P]]

Call(x) == /\ rd[x].pc = "idle" /\ rd[x].calls < MaxCalls
           /\ \E s \in Subjects : Keep(x, {0}, [Idle EXCEPT !.pc = "match", !.s = s, !.calls = rd[x].calls + 1])
           /\ UNCHANGED obj
\* the first reader completes the first glob element by element
Lazy(x) == /\ Scratch = "lazy" /\ rd[x].pc = "match" /\ rd[x].n = 1 /\ rd[x].e = 1 /\ Len(obj[1]) < Len(Elems[1])
           /\ \/ obj' = [obj EXCEPT ![1] = Append(@, Elems[1][Len(@) + 1])]
           /\ UNCHANGED <<place, rd>>
LazyDone(x) == Scratch # "lazy" \/ rd[x].n # 1 \/ rd[x].e # 1 \/ obj[1] # <<>>
Step(x) ==
  LET r == rd[x]
  IN /\ r.pc = "match" /\ r.n <= Len(obj) /\ r.e <= Len(obj[r.n]) /\ LazyDone(x)
     /\ Keep(x, Reach1(r.s, Reached(x), obj[r.n][r.e]), [r EXCEPT !.e = @ + 1]) /\ UNCHANGED obj
EndGlob(x) ==
  LET r == rd[x]
  IN /\ r.pc = "match" /\ r.n <= Len(obj) /\ r.e > Len(obj[r.n]) /\ LazyDone(x)
     /\ Keep(x, {0}, [r EXCEPT !.out = IF Len(r.s) \in Reached(x) THEN @ \cup {r.n} ELSE @, !.n = @ + 1, !.e = 1])
     /\ UNCHANGED obj
Return(x) == /\ rd[x].pc = "match" /\ rd[x].n > Len(obj)
             /\ rd' = [rd EXCEPT ![x].pc = "idle"] /\ UNCHANGED <<obj, place>>

Next == \E x \in Readers : Call(x) \/ Lazy(x) \/ Step(x) \/ EndGlob(x) \/ Return(x)
Spec == Init /\ [][Next]_vars /\ \A x \in Readers : WF_vars(Lazy(x) \/ Step(x) \/ EndGlob(x) \/ Return(x))

Alone(s) == {n \in DOMAIN Elems : Matches(Elems[n], s)}
AsAlone == \A x \in Readers : rd[x].pc = "idle" /\ rd[x].calls > 0 => rd[x].out = Alone(rd[x].s)
Unchanged == [][obj' = obj]_vars
Answered == \A x \in Readers : rd[x].pc = "match" ~> rd[x].pc = "idle"
=============================================================================
