------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* The three batch matchers as one abstract machine: a registry of         *)
(* expressions under unique indexes, and matching that answers with        *)
(* exactly the registered expressions whose meaning holds for the subject. *)
(*                                                                         *)
(* kind "glob"   - globs against texts                                     *)
(* kind "dotted" - dotted globs against paths                              *)
(* kind "tags"   - tag queries against tag sets                            *)
(*                                                                         *)
(* The normal form of an expression is a parameter (the code that parses   *)
(* one expression alone defines it); its properties are specified          *)
(* separately.                                                             *)
(***************************************************************************)
EXTENDS Dotted, Series, TLC

Meaning(kind, text) ==
  CASE kind = "glob" -> LET p == Parse(text) IN [ok |-> p.ok, m |-> p.e]
    [] kind = "dotted" -> LET p == DParse(text) IN [ok |-> p.ok, m |-> p.l]
    [] kind = "tags" -> LET p == Query(text) IN [ok |-> p.st # "bad", m |-> p.t]

Holds(kind, m, s, tags) ==
  CASE kind = "glob" -> Matches(m, s)
    [] kind = "dotted" -> DMatches(m, s)
    [] kind = "tags" -> AllSatisfied(m, tags)

\* by: text -> index, ix: index -> normal form, sem: index -> meaning
Empty == [x \in {} |-> 0]
NoReg == [by |-> Empty, ix |-> Empty, sem |-> Empty]

\* reasons why adding must fail
Reasons(reg, text, norm, valid, n) ==
  (IF n < 0 THEN {"index"} ELSE {})
  \cup (IF n \in DOMAIN reg.ix THEN {"dup"} ELSE {})
  \cup (IF valid THEN {} ELSE {"invalid"})
  \cup (IF text \in DOMAIN reg.by \/ (valid /\ norm \in DOMAIN reg.by) THEN {"exist"} ELSE {})

\* the index told for an already known expression
Known(reg, text, norm) == {reg.by[t] : t \in {text, norm} \cap DOMAIN reg.by}

Added(reg, text, norm, n, m) ==
  [by |-> (text :> n) @@ (norm :> n) @@ reg.by,
   ix |-> (n :> norm) @@ reg.ix,
   sem |-> (n :> m) @@ reg.sem]

(* One addition, of a text ("add") or of an expression parsed beforehand    *)
(* ("addp").  Raw: the text under which the expression becomes known.       *)
Raw(kind, form, text, norm) ==
  IF form = "add" THEN text
  ELSE CASE kind = "glob" -> text
         [] kind = "dotted" -> DropTrailingDot(text)
         [] kind = "tags" -> norm

\* additions without effect
Nothing(kind, form, text) ==
  \/ form = "add" /\ text = <<>>
  \/ form = "addp" /\ ~Meaning(kind, text).ok
  \/ form = "addp" /\ kind = "tags" /\ Meaning(kind, text).m = <<>>

Why(kind, reg, form, text, norm, n) ==
  Reasons(reg, Raw(kind, form, text, norm), norm, Meaning(kind, text).ok, n)

AfterAdd(kind, reg, form, text, norm, n) ==
  IF Nothing(kind, form, text) \/ Why(kind, reg, form, text, norm, n) # {} THEN reg
  ELSE Added(reg, Raw(kind, form, text, norm), norm, n, Meaning(kind, text).m)

\* what a match reports: set of pairs <<index, normal form>>
Hits(kind, reg, s, tags) ==
  {<<n, reg.ix[n]>> : n \in {n \in DOMAIN reg.ix : Holds(kind, reg.sem[n], s, tags)}}

-----------------------------------------------------------------------------
\* Invariants of the registry
RegistryOK(reg) ==
  /\ DOMAIN reg.ix = DOMAIN reg.sem
  /\ \A n \in DOMAIN reg.ix : n >= 0 /\ reg.ix[n] \in DOMAIN reg.by /\ reg.by[reg.ix[n]] = n
  /\ \A t \in DOMAIN reg.by : reg.by[t] \in DOMAIN reg.ix
  /\ \A a, b \in DOMAIN reg.ix : reg.ix[a] = reg.ix[b] => a = b
=============================================================================
