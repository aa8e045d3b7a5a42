----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace file has one line per *)
(* scenario: [id, ev], ev being the events recorded from the real code.    *)
(* Every trace specification has the variables                             *)
(*   tr  - which trace,  l - events consumed,  why - clauses that failed   *)
(* and is total: an event the specification does not allow makes "why"     *)
(* non-empty, so that TLC's error trace names the clause and the event.    *)
(* Acceptance is double: the invariant why = {} and the postcondition that *)
(* every event of every trace was consumed.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, EGPrim

Traces == ndJsonDeserialize(EnvText("eg.trace", "trace.ndjson"))
Prop   == EnvText("eg.prop", "")

\* clause c of property p (evaluated only when p is being decided); P21 is the whole
\* behaviour as seen through the C interface, P22 as seen by concurrent threads
Whole == {"P21", "P22"}
Every == Prop = "" \/ Prop \in Whole
Clause(p, c, cond) == IF ~Every /\ p # Prop THEN {} ELSE IF cond THEN {} ELSE {(IF Prop \in Whole THEN Prop \o " " ELSE "") \o p \o ":" \o c}
\* a clause that belongs to several properties
ClauseOf(ps, c, cond) ==
    IF ~Every /\ Prop \notin ps THEN {} ELSE IF cond THEN {} ELSE {Prop \o ":" \o c}
\* after the last operation: everything is released
ExitC(e) == ClauseOf({"P21"}, "objects can be released", FALSE)

RECURSIVE SumLen(_, _)
SumLen(i, acc) == IF i = 0 THEN acc ELSE SumLen(i - 1, acc + Len(Traces[i].ev) + 1)
TotalStates == SumLen(Len(Traces), 0)
AllConsumed == TLCGet("stats").distinct = TotalStates

Ok(e)      == e.r.st = "ok"
Crashed(e) == e.r.st \in {"crash", "hang"}
Refused(e) == ~Ok(e) /\ ~Crashed(e)
=============================================================================
