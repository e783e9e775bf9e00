------------------------------ MODULE ParseMC ------------------------------
(***************************************************************************)
(* Reading a glob symbol by symbol (the parser state of Glob.tla) against  *)
(* the grammar, which says without any state which texts are globs:        *)
(*   glob  = { plain | * | ? | "[" class "]" | "{" value {"," value} "}" } *)
(*   value = a glob without lists                                          *)
(*   class = { - } [ symbol { - } [ symbol ] ] ...  with ascending ranges  *)
(***************************************************************************)
EXTENDS Glob

CONSTANTS Alphabet, MaxText
VARIABLES t,   \* text read
          a    \* state of the parser
vars == <<t, a>>

RECURSIVE ClassText(_)
ClassText(b) ==
  IF b = <<>> THEN TRUE
  ELSE IF b[1] = DASH THEN ClassText(Tail(b))
  ELSE LET S == {i \in 2..Len(b) : b[i] # DASH}
       IN IF S = {} \/ MinOf(S) = 2 THEN ClassText(Tail(b))     \* no dash after it, or nothing after the dashes
          ELSE LET j == MinOf(S)
               IN b[1] <= b[j] /\ Utf8Len(b[1]) = Utf8Len(b[j]) /\ ClassText(From(b, j + 1))

RECURSIVE IsGlob(_, _)
IsGlob(s, lists) ==
  IF s = <<>> THEN TRUE
  ELSE CASE s[1] = LBRACKET -> LET j == Pos(s, RBRACKET)
                               IN j > 0 /\ ClassText(SubSeq(s, 2, j - 1)) /\ IsGlob(From(s, j + 1), lists)
         [] s[1] = LBRACE -> LET j == Pos(s, RBRACE)
                                 v == Split(SubSeq(s, 2, j - 1), COMMA)
                             IN lists /\ j > 0 /\ (\A i \in DOMAIN v : IsGlob(v[i], FALSE))
                                /\ IsGlob(From(s, j + 1), TRUE)
         [] s[1] \in {RBRACKET, RBRACE} -> FALSE
         [] OTHER -> IsGlob(Tail(s), lists)

Init == t = <<>> /\ a = P0
Next == \E c \in Alphabet : Len(t) < MaxText /\ t' = Append(t, c) /\ a' = GlobStep(a, c)
Spec == Init /\ [][Next]_vars

SameAsGrammar == Done(a).ok = IsGlob(t, TRUE)
\* elements never have lists inside of lists, empty classes or empty ranges
FlatOK(e) == \A i \in DOMAIN e : e[i].k # "alt"
ElementsOK == \A i \in DOMAIN a.out :
                CASE a.out[i].k = "alt" -> a.out[i].a # <<>> /\ \A j \in DOMAIN a.out[i].a : FlatOK(a.out[i].a[j])
                  [] a.out[i].k = "set" -> a.out[i].r # <<>> /\ \A j \in DOMAIN a.out[i].r : a.out[i].r[j][1] <= a.out[i].r[j][2]
                  [] OTHER -> TRUE
\* what was wrong stays wrong, what was read stays read
Monotone == [][/\ ~a.ok => ~a'.ok
               /\ a'.ok => StartsWith(a'.out, a.out)]_vars
=============================================================================
