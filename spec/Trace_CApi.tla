----------------------------- MODULE Trace_CApi -----------------------------
(* The list of the C interface as a sequence of pairs, and the small facts   *)
(* of that interface.                                                        *)
EXTENDS TraceBase
VARIABLES tr, l, why, lists
vars == <<tr, l, why, lists>>
Ev == Traces[tr].ev[l + 1]
C(c, cond) == Clause("P21", c, cond)
Same == UNCHANGED lists
Shows(e) == Ok(e) /\ e.r.l = lists'[e.n]
OutOfRange == 2     \* ELECTIONGUARD_STATUS_ERROR_OUT_OF_RANGE
StatusNames == << "SUCCESS", "ERROR_INVALID_ARGUMENT", "ERROR_OUT_OF_RANGE", "ERROR_IO_ERROR", "ERROR_BAD_ACCESS", "ERROR_BAD_ALLOC",
                  "ERROR_ALREADY_EXISTS", "ERROR_RUNTIME_ERROR", "UNKNOWN", "UNKNOWN" >>
Step(e) ==
    CASE e.op = "ll_new" -> lists' = (e.n :> <<>>) @@ lists /\ why' = C("new list", Shows(e))
      [] e.op = "ll_append" -> lists' = [lists EXCEPT ![e.n] = Append(@, [k |-> e.k, v |-> e.v])] /\ why' = C("append", Shows(e))
      [] e.op = "ll_pop" -> /\ lists' = [lists EXCEPT ![e.n] = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
                            /\ why' = C("delete last", IF lists[e.n] = <<>> THEN ~Crashed(e) /\ (Ok(e) => Shows(e)) ELSE Shows(e))
      [] e.op = "ll_at" -> Same /\ why' = C("element at an index", Ok(e) /\ LET x == lists[e.n] inside == DLt(e.i, DStr(Len(x))) IN
                IF inside THEN e.r.s1 = 0 /\ e.r.s2 = 0 /\ e.r.e = <<x[DInt(e.i) + 1]>> ELSE e.r.s1 = OutOfRange /\ e.r.s2 = OutOfRange /\ e.r.e = <<>>)
      [] e.op = "ll_free" -> lists' = [n \in DOMAIN lists \ {e.n} |-> lists[n]] /\ why' = C("free", Ok(e))
      [] e.op = "xd_new" -> Same /\ why' = C("extended data", Ok(e) /\ e.r.v = e.v /\ e.r.len = e.len)
      [] e.op = "null_free" -> Same /\ why' = C("releasing nothing", Ok(e))
      [] e.op = "st_text" -> Same /\ why' = C("text of a status", Ok(e) /\ e.r.t = [i \in 1..10 |-> "ELECTIONGUARD_STATUS_" \o StatusNames[i]])
      [] e.op = "exit" -> Same /\ why' = ExitC(e)
      [] OTHER -> Same /\ why' = {"harness:event"}
Init == tr \in 1..Len(Traces) /\ l = 0 /\ why = {} /\ lists = <<>>
Next == l < Len(Traces[tr].ev) /\ why = {} /\ l' = l + 1 /\ tr' = tr /\ Step(Ev)
Accepted == why = {}
=============================================================================
