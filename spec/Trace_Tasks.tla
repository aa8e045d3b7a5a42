---------------------------- MODULE Trace_Tasks -----------------------------
(* Recorded runs of the real queue, pool and semaphore against Tasks.       *)
EXTENDS TraceBase, Tasks
VARIABLES tr, l, why
vars == <<tr, l, why>>
Ev == Traces[tr].ev[l + 1]
C(c, cond) == Clause("P24", c, cond)
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Wanted(e, i) == IF e.tasks[i] = "fail" THEN "failed " \o ToString(i) ELSE "value " \o ToString(i)

Clauses(e) ==
  CASE ~Ok(e) -> C("background work completes (" \o e.op \o ")", FALSE)
    [] e.op = "q_hist" -> C("histories of the queue are linearizable",
            /\ Len(e.r.rounds) = e.rounds
            /\ \A k \in DOMAIN e.r.rounds : Linearizable(SetOf(e.r.rounds[k]), e.pre))
    [] e.op = "q_stress" -> LET all == Cat(e.r.got) \o e.r.left IN
            C("every value exactly once", Len(all) = e.producers * e.n /\ SetOf(all) = {p * 1000000 + i : p \in 1..e.producers, i \in 1..e.n})
            \cup C("in the order of the pushes", (\A c \in DOMAIN e.r.got : InOrder(e.r.got[c])) /\ InOrder(e.r.left))
            \cup C("nothing is left behind", e.r.left = <<>> /\ e.r.empty)
    [] e.op = "pool" ->
            C("every task runs exactly once", \A i \in DOMAIN e.tasks : e.r.runs[i] = 1 /\ e.r.nruns[i] = (IF e.tasks[i] = "nest" THEN 1 ELSE 0))
            \cup C("results reach the submitter", Len(e.r.results) = Len(e.tasks) /\ \A i \in DOMAIN e.tasks : e.r.results[i] = Wanted(e, i))
            \cup C("results of tasks submitted by tasks", e.drop \/ \A i \in DOMAIN e.tasks : e.r.inner[i] = (IF e.tasks[i] = "nest" THEN "inner " \o ToString(i) ELSE ""))
            \cup C("the workers do the work", e.r.mine = 0 /\ (e.sched \/ e.r.threads <= e.workers) /\ (Len(e.tasks) > 0 => e.r.threads > 0))
            \cup C("as many at once as there are workers", e.drop \/ e.sched \/ (Len(e.r.met) = e.workers /\ \A i \in DOMAIN e.r.met : e.r.met[i] = "met"))
    [] e.op = "waitall" -> C("all results are collected", Len(e.r.v) = Len(e.delays) /\ SetOf(e.r.v) = 1..Len(e.delays))
            \cup C("readiness", ~e.r.none /\ ~e.r.before /\ e.r.after /\ e.r.still = 3)
    [] e.op = "sem" -> C("never more inside than places", e.r.max <= e.count)
            \cup C("everybody gets in and out", e.r.entries = e.threads * e.rounds /\ e.r.count = e.count)
    [] e.op = "sem_hand" -> C("a place given back reaches one waiting thread",
            /\ e.r.start = e.count /\ e.r.held = 0 /\ ~e.r.stuck /\ e.r.count = 0
            /\ e.r.seen = [i \in 1..(e.waiters + 1) |-> i - 1])
    [] e.op = "sem_burst" -> C("places given back at once reach everybody who waits", e.r.all /\ e.r.count = 0)
    [] e.op = "sem_wait" -> C("waiting passes the place on", e.r.before = 0 /\ e.r.all /\ e.r.count = 1)
    [] OTHER -> {"harness:event"}

Init == tr \in 1..Len(Traces) /\ l = 0 /\ why = {}
Next == /\ l < Len(Traces[tr].ev) /\ why = {}
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ why' = IF Ev.op = "exit" THEN C("the process died", FALSE) ELSE Clauses(Ev)
Accepted == why = {}
=============================================================================
