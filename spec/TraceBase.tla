----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading of recorded executions of the real code (one JSON record per    *)
(* line: i - inputs, o - outputs, x - outcome of the call) and reporting   *)
(* of the records the specification does not allow.                        *)
(*                                                                         *)
(* A trace module says which deviations a record has (a set of pairs       *)
(* <<tag, position>>); a record without deviations is a behaviour of the   *)
(* specification.  Every record is consumed (TraceAccepted), so one        *)
(* deviation does not hide the next ones.                                  *)
(***************************************************************************)
EXTENDS Text, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(n, D) ==
  D = {} \/ PrintT("DEV " \o ToString(n) \o " " \o ToString(D))

\* a call that panics, hangs or exhausts the memory is never allowed
Crashed(r) == IF r.x = "ok" THEN {} ELSE {<<"outcome: " \o r.x, 0>>}

If(c, tag, n) == IF c THEN {<<tag, n>>} ELSE {}

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
