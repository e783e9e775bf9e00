----------------------------- MODULE TagPathMC -----------------------------
(***************************************************************************)
(* Decoding a tagged path byte by byte: the name up to the separator, then *)
(* key and value of one pair after another, with the unescaping reader of  *)
(* Escape.tla inside.  The machine is compared with the definition, which  *)
(* cuts the path at its separators (TagPath.tla), for both formats.        *)
(* And the other way round: whatever tags are written down escaped come    *)
(* out of the decoder again.                                               *)
(***************************************************************************)
EXTENDS TagPath

CONSTANTS Alphabet, MaxText, SEP, PSEP
VARIABLES t,     \* path read so far
          m,     \* "name", "key", "value", "fail"
          r,     \* reader of the current part
          key,   \* the key whose value is being read
          name, tags, nameEq, empty
vars == <<t, m, r, key, name, tags, nameEq, empty>>

R0 == [t |-> <<>>, out |-> <<>>]
Got(a) == a.out \o a.t

Init == t = <<>> /\ m = "name" /\ r = R0 /\ key = <<>> /\ name = <<>> /\ tags = <<>> /\ nameEq = FALSE /\ empty = TRUE

Read(c) ==
  CASE m = "name" ->
         IF c = SEP THEN m' = "key" /\ r' = R0 /\ name' = Got(r) /\ UNCHANGED <<key, tags, nameEq, empty>>
         ELSE r' = UnStep(r, c) /\ nameEq' = (nameEq \/ c = EQB) /\ UNCHANGED <<m, key, name, tags, empty>>
    [] m = "key" ->
         IF c = PSEP THEN m' = "fail" /\ UNCHANGED <<r, key, name, tags, nameEq, empty>>
         ELSE IF c = EQB THEN m' = "value" /\ key' = Got(r) /\ r' = R0 /\ empty' = FALSE /\ UNCHANGED <<name, tags, nameEq>>
         ELSE r' = UnStep(r, c) /\ empty' = FALSE /\ UNCHANGED <<m, key, name, tags, nameEq>>
    [] m = "value" ->
         IF c = PSEP THEN m' = "key" /\ tags' = Append(tags, <<key, Got(r)>>) /\ r' = R0 /\ empty' = TRUE
                          /\ UNCHANGED <<key, name, nameEq>>
         ELSE r' = UnStep(r, c) /\ UNCHANGED <<m, key, name, tags, nameEq, empty>>
    [] OTHER -> UNCHANGED <<m, r, key, name, tags, nameEq, empty>>

Next == \E c \in Alphabet : Len(t) < MaxText /\ t' = Append(t, c) /\ Read(c)
Spec == Init /\ [][Next]_vars

\* what the machine says when the path ends here; a separator at the end is
\* ignored, but a lone one is not a pair
AtEnd == CASE m = "name" -> [err |-> TRUE, tags |-> << <<NAMEKEY, Got(r)>> >>]
           [] m = "fail" -> [err |-> TRUE, tags |-> << <<NAMEKEY, name>> >> \o tags]
           [] m = "value" -> [err |-> nameEq, tags |-> << <<NAMEKEY, name>> >> \o Append(tags, <<key, Got(r)>>)]
           [] m = "key" -> [err |-> nameEq \/ ~empty, tags |-> << <<NAMEKEY, name>> >> \o tags]

Same == LET d == DecodePath(t, SEP, PSEP) a == AtEnd
        IN d.err = a.err /\ d.tags[1] = a.tags[1] /\ (~d.err => d.tags = a.tags)
\* an error stays an error
Fails == [][m = "fail" => DecodePath(t', SEP, PSEP).err]_vars

Write(n, ps) == EscQuery(n) \o <<SEP>>
                \o Join([i \in DOMAIN ps |-> EscQuery(ps[i][1]) \o <<EQB>> \o EscQuery(ps[i][2])], <<PSEP>>)
RoundTrip == ~DecodePath(t, SEP, PSEP).err =>
               LET d == DecodePath(t, SEP, PSEP).tags
               IN DecodePath(Write(d[1][2], Tail(d)), SEP, PSEP) = [err |-> FALSE, tags |-> d]
\* the map form has every key once, with the last value
Map == LET d == DecodePath(t, SEP, PSEP).tags  f == MapOf(d)
       IN /\ {x[1] : x \in f} = {d[i][1] : i \in DOMAIN d}
          /\ Cardinality(f) = Cardinality({x[1] : x \in f})
          /\ <<d[Len(d)][1], d[Len(d)][2]>> \in f
=============================================================================
