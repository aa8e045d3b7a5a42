---------------------------- MODULE Trace_Memory ----------------------------
(* Trace specification: what is left of group elements where they were released. *)
EXTENDS TraceBase, EGGroup
VARIABLES tr, l, why, held, back
LeftOf(v) == {}
M == INSTANCE Memory WITH Left <- LeftOf
vars == <<tr, l, why, held, back>>
Ev == Traces[tr].ev[l + 1]
Wiped(e) == ClauseOf({"P23"}, "released memory is wiped", Ok(e) /\ e.r.left = "0")
Step(e) ==
    \/ e.op = "w_new" /\ M!Hold(e.n, e.x) /\ why' = Wiped(e)
    \/ e.op = "w_copy" /\ M!CopyTo(e.to, e.from) /\ why' = Wiped(e)
    \/ e.op = "w_drop" /\ M!Release(e.n) /\ why' = Wiped(e)
    \/ e.op = "w_show" /\ UNCHANGED <<held, back>> /\ why' = ClauseOf({"P23"}, "a live element keeps its value", Ok(e) /\ e.r.v = held[e.n])
    \/ e.op = "w_held" /\ UNCHANGED <<held, back>> /\ why' = Wiped(e)
Init == tr \in 1..Len(Traces) /\ l = 0 /\ why = {} /\ M!MemInit
Next == /\ l < Len(Traces[tr].ev) /\ why = {}
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ IF Ev.op \in {"w_new", "w_copy", "w_drop", "w_show", "w_held"} THEN Step(Ev)
           ELSE IF Ev.op = "exit" THEN why' = {Prop \o ":the process died"} /\ UNCHANGED <<held, back>>
           ELSE why' = {"harness:event"} /\ UNCHANGED <<held, back>>
Accepted == why = {}
=============================================================================
