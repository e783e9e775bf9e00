---------------------------- MODULE RegistryMC ----------------------------
(***************************************************************************)
(* All histories of additions to a batch matcher.  Table lists the         *)
(* expressions with their normal forms; Indexes the indexes tried (none:   *)
(* the n-th addition has the index n).  Checked: the registry stays        *)
(* consistent, a failing addition has a reason and no effect, reports      *)
(* only grow and depend on nothing but the successful additions.           *)
(*                                                                         *)
(* The complete histories are printed for the replay on the real code.     *)
(***************************************************************************)
EXTENDS Batch, Json

CONSTANTS Kind, Table, Forms, Indexes, Subjects, MaxOps, Emit, EmitReg

VARIABLES reg, hist
vars == <<reg, hist>>

Op(f, x, n) == [k |-> f, t |-> Table[x].t, n |-> n, s |-> <<>>, p |-> <<>>]

Init == reg = NoReg /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E x \in DOMAIN Table, f \in Forms, n \in (IF Indexes = {} THEN {Len(hist) + 1} ELSE Indexes) :
             /\ hist' = Append(hist, [x |-> x, op |-> Op(f, x, n), why |-> Why(Kind, reg, f, Table[x].t, Table[x].n, n)])
             /\ reg' = AfterAdd(Kind, reg, f, Table[x].t, Table[x].n, n)
Spec == Init /\ [][Next]_vars

Consistent == RegistryOK(reg)

HitsOf(r, i) == Hits(Kind, r, Subjects[i].s, Subjects[i].p)

Effective(h) == h.why = {} /\ ~Nothing(Kind, h.op.k, h.op.t)
\* the registry is nothing but the successful additions
Accounted ==
  LET E == {i \in DOMAIN hist : Effective(hist[i])}
  IN /\ DOMAIN reg.ix = {hist[i].op.n : i \in E}
     /\ Cardinality(E) = Cardinality(DOMAIN reg.ix)
     /\ \A i \in E : reg.ix[hist[i].op.n] = Table[hist[i].x].n /\ reg.by[Table[hist[i].x].n] = hist[i].op.n
\* so the reports are those of the expressions alone
Alone ==
  \A i \in DOMAIN Subjects :
    HitsOf(reg, i) = {<<h.op.n, Table[h.x].n>> : h \in {h \in RangeOf(hist) :
        Effective(h) /\ Holds(Kind, Meaning(Kind, h.op.t).m, Subjects[i].s, Subjects[i].p)}}

NoEffect == [][reg' = reg \/ Effective(hist'[Len(hist')])]_vars
Grows == [][\A i \in DOMAIN Subjects : HitsOf(reg, i) \subseteq HitsOf(reg', i)]_vars
\* an expression can be added once, under whatever of its texts
Once == \A i, j \in DOMAIN hist : i < j /\ Effective(hist[i]) /\ Effective(hist[j])
          => Table[hist[i].x].n # Table[hist[j].x].n

\* the normal forms of the table are normal forms
ASSUME \A x \in DOMAIN Table : Meaning(Kind, Table[x].t).ok => Meaning(Kind, Table[x].n).ok

-----------------------------------------------------------------------------
MatchOp(i) == [k |-> "match", t |-> <<>>, n |-> 0, s |-> Subjects[i].s, p |-> Subjects[i].p]
\* with the registry observed, one match after every addition; all at the end
Ops == FoldLeftDomain(LAMBDA a, i : Append(a, hist[i].op)
                          \o (IF EmitReg THEN <<MatchOp(1 + (i % Len(Subjects)))>> ELSE <<>>), <<>>, hist)
       \o [i \in DOMAIN Subjects |-> MatchOp(i)]
Gen == (Emit /\ Len(hist) = MaxOps) => PrintT("GEN " \o ToJson([kind |-> Kind, reg |-> EmitReg, ops |-> Ops]))

-----------------------------------------------------------------------------
Tried == {-1, 0, 7}
ByNumber == {}

N(t, n) == [t |-> t, n |-> n]
S(s) == [s |-> s, p |-> <<>>]
G(p) == [s |-> <<>>, p |-> p]

GlobTable == <<N(<<123,98,44,97,125>>, <<123,97,44,98,125>>), N(<<123,97,44,98,125>>, <<123,97,44,98,125>>), N(<<91,97,93>>, <<97>>), N(<<97>>, <<97>>), N(<<97,91>>, <<>>), N(<<42,42>>, <<42>>), N(<<>>, <<>>)>>
GlobSubjects == <<S(<<97>>), S(<<98>>), S(<<97,98>>)>>

DotTable == <<N(<<97,46,42,46>>, <<97,46,42>>), N(<<97,46,42>>, <<97,46,42>>), N(<<91,97,93,46,98>>, <<97,46,98>>), N(<<97,46,98>>, <<97,46,98>>), N(<<97,46,46,98>>, <<>>), N(<<42,46,98,46>>, <<42,46,98>>), N(<<>>, <<>>)>>
DotSubjects == <<S(<<97,46,98>>), S(<<97,46,98,46>>), S(<<98,46,98>>), S(<<97>>)>>

Q1 == <<115,101,114,105,101,115,66,121,84,97,103,40,39,97,61,98,39,44,39,98,61,99,39,41>>
Q2 == <<115,101,114,105,101,115,66,121,84,97,103,40,34,98,61,99,34,32,44,32,39,97,61,98,39,41>>
Q3 == <<115,101,114,105,101,115,66,121,84,97,103,40,39,97,61,126,98,39,41>>
Q4 == <<115,101,114,105,101,115,66,121,84,97,103,40,39,97,61,98,41>>
Q5 == <<115,101,114,105,101,115,66,121,84,97,103,40,32,39,97,33,61,99,39,32,41>>
Q6 == <<115,101,114,105,101,115,66,121,84,97,103,40,39,97,33,61,99,39,41>>
TagTable == <<N(Q1, Q1), N(Q2, Q1), N(Q3, Q3), N(Q4, <<>>), N(Q5, Q6), N(Q6, Q6), N(<<115,101,114,105,101,115,66,121,84,97,103,40,41>>, <<115,101,114,105,101,115,66,121,84,97,103,40,41>>)>>
TagSubjects == <<G(<<<<DNAME, <<120>>>>, <<<<97>>, <<98>>>>, <<<<98>>, <<99>>>>>>), G(<<<<DNAME, <<120>>>>, <<<<97>>, <<99>>>>>>), G(<<<<DNAME, <<97>>>>>>)>>

GlobPool == <<N(<<97>>, <<97>>), N(<<97,98>>, <<97,98>>), N(<<97,42>>, <<97,42>>), N(<<42,98>>, <<42,98>>), N(<<42>>, <<42>>), N(<<97,42,98>>, <<97,42,98>>), N(<<63,98>>, <<63,98>>),
              N(<<91,97,98,93,98>>, <<91,97,98,93,98>>), N(<<123,97,44,98,125>>, <<123,97,44,98,125>>), N(<<123,97,44,98,98,125,98>>, <<123,97,44,98,98,125,98>>), N(<<97,123,44,98,125>>, <<97,123,44,98,125>>),
              N(<<42,123,97,44,98,125,42>>, <<42,123,97,44,98,125,42>>), N(<<123,97,42,44,98,125>>, <<123,97,42,44,98,125>>)>>
Words(al, n) == SetToSeq(UNION {[1..k -> al] : k \in 1..n})
GlobPoolSubjects == LET w == Words({97, 98}, 4) IN [i \in DOMAIN w |-> S(w[i])]

DotPool == <<N(<<97>>, <<97>>), N(<<97,46,98>>, <<97,46,98>>), N(<<97,46,42>>, <<97,46,42>>), N(<<42,46,98>>, <<42,46,98>>), N(<<42,46,42>>, <<42,46,42>>), N(<<97,42>>, <<97,42>>), N(<<63,46,98>>, <<63,46,98>>),
             N(<<97,46,123,98,44,97,98,125>>, <<97,46,123,97,98,44,98,125>>), N(<<123,97,44,98,125,46,98>>, <<123,97,44,98,125,46,98>>), N(<<42,46,97,46,42>>, <<42,46,97,46,42>>), N(<<97,46,97,46,98>>, <<97,46,97,46,98>>), N(<<42>>, <<42>>)>>
DotPoolSubjects == LET w == SetToSeq({Join(l, <<DOT>>) : l \in UNION {[1..k -> {<<97>>, <<98>>, <<97,98>>}] : k \in 1..3}})
                   IN [i \in DOMAIN w |-> S(w[i])]

QQ(c) == HEAD \o c \o <<41>>
QN(c) == N(QQ(c), QQ(c))
TagPool == <<QN(<<>>), QN(<<39,97,61,98,39>>), QN(<<39,97,33,61,98,39>>), QN(<<39,97,61,98,42,39>>), QN(<<39,97,61,126,98,39>>), QN(<<39,97,33,61,126,99,39>>), QN(<<39,95,95,110,97,109,101,95,95,61,120,39,44,39,97,61,98,39>>),
             QN(<<39,98,61,99,39>>), QN(<<39,97,61,98,39,44,39,98,61,99,39>>), QN(<<39,97,61,98,39,44,39,98,33,61,99,39>>), QN(<<39,97,33,61,39,44,39,98,61,99,39>>), QN(<<39,95,95,110,97,109,101,95,95,61,126,120,39>>)>>
Vals == {<<98>>, <<99>>, <<98,98>>}
TagPoolSubjects ==
  LET A == {<<>>} \cup {<<<<<<97>>, v>>>> : v \in Vals}
      B == {<<>>} \cup {<<<<<<98>>, v>>>> : v \in {<<98>>, <<99>>}}
      C == {<<>>, <<<<<<97,97>>, <<99>>>>>>}
      T == SetToSeq({<<<<DNAME, n>>>> \o a \o c \o b : n \in {<<120>>, <<121>>}, a \in A, b \in B, c \in C})
  IN [i \in DOMAIN T |-> G(T[i])]
=============================================================================
