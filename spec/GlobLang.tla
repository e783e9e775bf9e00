------------------------------ MODULE GlobLang ------------------------------
(***************************************************************************)
(* Equality of the languages of two globs, decided on the product of the   *)
(* subset constructions of their automata.                                 *)
(*                                                                         *)
(* States of the automaton of the elements e: <<i, 0, 0>> - before element *)
(* i; <<i, j, k>> - inside alternative j of the list i, before its k-th    *)
(* element.  Only finitely many symbols need to be tried: the first symbol *)
(* of every interval between the bounds used by the two globs.             *)
(***************************************************************************)
EXTENDS Glob

AltStates(e, i, j, k) ==   \* epsilon moves inside alternative j
  LET a == e[i].a[j]
      K == {m \in k..Len(a) + 1 : \A n \in k..m - 1 : a[n].k = "star"}
  IN K

\* positions reachable from "before element i" without consuming
RECURSIVE TopClosure(_, _)
TopClosure(e, i) ==
  IF i = Len(e) + 1 THEN {<<i, 0, 0>>}
  ELSE IF e[i].k = "star" THEN {<<i, 0, 0>>} \cup TopClosure(e, i + 1)
  ELSE IF e[i].k = "alt"
    THEN LET in == UNION {{<<i, j, k>> : k \in AltStates(e, i, j, 1)} : j \in DOMAIN e[i].a}
         IN in \cup (IF \E j \in DOMAIN e[i].a : <<i, j, Len(e[i].a[j]) + 1>> \in in
                     THEN TopClosure(e, i + 1) ELSE {})
  ELSE {<<i, 0, 0>>}

AltClosure(e, i, j, k) ==
  LET K == AltStates(e, i, j, k)
  IN {<<i, j, m>> : m \in K}
     \cup (IF Len(e[i].a[j]) + 1 \in K THEN TopClosure(e, i + 1) ELSE {})

Accepts1(x, c) == CASE x.k = "lit" -> x.c = c
                    [] x.k = "set" -> InRanges(c, x.r)
                    [] OTHER -> TRUE

Step1(e, q, c) ==
  LET i == q[1] j == q[2] k == q[3]
  IN IF i > Len(e) THEN {}
     ELSE IF j = 0
       THEN IF ~Accepts1(e[i], c) THEN {}
            ELSE IF e[i].k = "star" THEN TopClosure(e, i) ELSE TopClosure(e, i + 1)
       ELSE IF k > Len(e[i].a[j]) THEN {}
            ELSE LET x == e[i].a[j][k]
                 IN IF ~Accepts1(x, c) THEN {}
                    ELSE IF x.k = "star" THEN AltClosure(e, i, j, k)
                    ELSE AltClosure(e, i, j, k + 1)

StepAll(e, Q, c) == UNION {Step1(e, q, c) : q \in Q}

Final(e, Q) == <<Len(e) + 1, 0, 0>> \in Q

Bounds1(x) == CASE x.k = "lit" -> {x.c, x.c + 1}
                [] x.k = "set" -> UNION {{x.r[i][1], x.r[i][2] + 1} : i \in DOMAIN x.r}
                [] OTHER -> {}
FlatBounds(e) == UNION {Bounds1(e[i]) : i \in DOMAIN e}
Bounds(e) == UNION {IF e[i].k = "alt"
                    THEN UNION {FlatBounds(e[i].a[j]) : j \in DOMAIN e[i].a}
                    ELSE Bounds1(e[i]) : i \in DOMAIN e}

CAP == 400    \* explored pairs of subset states; beyond it nothing is claimed

RECURSIVE Explore(_, _, _, _, _)
Explore(a, b, alpha, seen, front) ==
  IF \E p \in front : Final(a, p[1]) # Final(b, p[2]) THEN "different"
  ELSE IF front = {} THEN "equal"
  ELSE IF Cardinality(seen) > CAP THEN "unknown"
  ELSE LET next == UNION {{<<StepAll(a, p[1], c), StepAll(b, p[2], c)>> : c \in alpha}
                            : p \in front}
           new == next \ seen
       IN Explore(a, b, alpha, seen \cup new, new)

LangCompare(a, b) ==
  IF a = b THEN "equal"
  ELSE LET s == {<<TopClosure(a, 1), TopClosure(b, 1)>>}
       IN Explore(a, b, {1} \cup Bounds(a) \cup Bounds(b), s, s)
=============================================================================
