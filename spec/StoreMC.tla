------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* A result store as it lies in memory: blocks of cells that are never     *)
(* given back, and a view (block, length) of one of them.  Storing writes  *)
(* the cell behind the view, in a new and bigger block if there is none;   *)
(* growing moves the view to a block of at least the size; Init keeps the  *)
(* block and forgets the content.  Checked: the view always shows the      *)
(* reports of Store.tla, the minimum is theirs, and no cell of the view    *)
(* changes by storing or growing.  How = "lose" leaves the content behind  *)
(* when growing; How = "shrink" cuts it to the new size: both must be      *)
(* noticed.                                                                *)
(***************************************************************************)
EXTENDS Store, TLC, Json

CONSTANTS Numbers, Sizes, MaxOps, How, Emit

VARIABLES cells,  \* the block of the view (0: never written)
          len, min, st, hist
vars == <<cells, len, min, st, hist>>

Init == cells = <<>> /\ len = 0 /\ min = -1 /\ st = NoReports /\ hist = <<>>

Blank(n) == [i \in 1..n |-> 0]
Moved(n) == \* to a block of n cells
  CASE How = "lose" -> Blank(n)
    [] How = "shrink" -> [i \in 1..n |-> IF i < len THEN cells[i] ELSE 0]
    [] OTHER -> [i \in 1..n |-> IF i <= len THEN cells[i] ELSE 0]

Store1(n) ==
  LET c == IF len < Len(cells) THEN cells ELSE [i \in 1..2 * len + 1 |-> IF i <= len THEN cells[i] ELSE 0]
  IN /\ cells' = [c EXCEPT ![len + 1] = n] /\ len' = len + 1
     /\ min' = IF min < 0 \/ n < min THEN n ELSE min
Grow(n) == /\ cells' = (IF n > Len(cells) THEN Moved(n) ELSE cells) /\ UNCHANGED <<len, min>>
Clear == len' = 0 /\ min' = -1 /\ UNCHANGED cells

Op(k, n) == [k |-> k, n |-> n, s |-> <<97 + n>>]
Next == /\ Len(hist) < MaxOps
        /\ \/ \E n \in Numbers : Store1(n) /\ hist' = Append(hist, Op("store", n)) /\ st' = After(st, Op("store", n))
           \/ \E n \in Sizes : Grow(n) /\ hist' = Append(hist, Op("grow", n)) /\ st' = After(st, Op("grow", n))
           \/ Clear /\ hist' = Append(hist, Op("init", 0)) /\ st' = After(st, Op("init", 0))
Spec == Init /\ [][Next]_vars

View == [i \in 1..len |-> cells[i]]
Shows == len <= Len(cells) /\ View = Indexes(st)
MinOK == min = Minimum(st)
Stays == [][hist'[Len(hist')].k # "init" => /\ len' >= len
                                            /\ \A i \in 1..len : cells'[i] = cells[i]]_vars

\* complete histories for the replay on the real stores
Gen == (Emit /\ Len(hist) = MaxOps) =>
         \A k \in {"min", "index", "string", "all"} : PrintT("GEN " \o ToJson([k |-> k, o |-> hist]))
=============================================================================
