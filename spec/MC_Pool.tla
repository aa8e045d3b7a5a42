------------------------------ MODULE MC_Pool -------------------------------
(***************************************************************************)
(* The design of the pool and of the semaphore.  Submitters push tasks,    *)
(* workers take and run them while the pool is running, the end of the     *)
(* pool waits until the queue is empty, stops the workers and joins them.  *)
(* Tasks enter a section with Places places through a semaphore built from *)
(* a counter, a lock and a condition (Waiting = threads that sleep).       *)
(* Ends = "at once" does not wait for the queue; Wakes = FALSE does not    *)
(* wake a sleeper; Places are checked only if Guards: all to be rejected.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Workers, Tasks, Places, Ends, Wakes, Guards
VARIABLES queue, running, wpc, runs, todo, end, count, waiting, inside
vars == <<queue, running, wpc, runs, todo, end, count, waiting, inside>>
Init == /\ queue = <<>> /\ running = TRUE /\ wpc = [w \in Workers |-> <<"look">>] /\ runs = [t \in Tasks |-> 0]
        /\ todo = Tasks /\ end = "no" /\ count = Places /\ waiting = {} /\ inside = {}
Submit(t) == /\ t \in todo /\ end = "no" /\ todo' = todo \ {t} /\ queue' = Append(queue, t)
             /\ UNCHANGED <<running, wpc, runs, end, count, waiting, inside>>
\* a worker looks whether the pool is running, then takes a task if there is one
Look(w) == /\ wpc[w] = <<"look">> /\ wpc' = [wpc EXCEPT ![w] = IF running THEN <<"take">> ELSE <<"gone">>]
           /\ UNCHANGED <<queue, running, runs, todo, end, count, waiting, inside>>
Take(w) == /\ wpc[w] = <<"take">>
           /\ IF queue = <<>> THEN wpc' = [wpc EXCEPT ![w] = <<"look">>] /\ UNCHANGED queue
              ELSE wpc' = [wpc EXCEPT ![w] = <<"enter", Head(queue)>>] /\ queue' = Tail(queue)
           /\ UNCHANGED <<running, runs, todo, end, count, waiting, inside>>
Enter(w) == /\ wpc[w][1] = "enter" /\ w \notin waiting
            /\ IF count > 0 \/ ~Guards
               THEN count' = count - 1 /\ inside' = inside \cup {w} /\ wpc' = [wpc EXCEPT ![w] = <<"run", wpc[w][2]>>] /\ UNCHANGED waiting
               ELSE waiting' = waiting \cup {w} /\ UNCHANGED <<count, inside, wpc>>
            /\ UNCHANGED <<queue, running, runs, todo, end>>
Run(w) == /\ wpc[w][1] = "run" /\ runs' = [runs EXCEPT ![wpc[w][2]] = @ + 1] /\ wpc' = [wpc EXCEPT ![w] = <<"look">>]
          /\ count' = count + 1 /\ inside' = inside \ {w}
          /\ IF waiting = {} \/ ~Wakes THEN UNCHANGED waiting ELSE \E x \in waiting : waiting' = waiting \ {x}
          /\ UNCHANGED <<queue, running, todo, end>>
EndWait == /\ end = "no" /\ todo = {} /\ end' = "wait" /\ UNCHANGED <<queue, running, wpc, runs, todo, count, waiting, inside>>
EndStop == /\ end = "wait" /\ (queue = <<>> \/ Ends = "at once") /\ running' = FALSE /\ end' = "join"
           /\ UNCHANGED <<queue, wpc, runs, todo, count, waiting, inside>>
EndJoin == /\ end = "join" /\ \A w \in Workers : wpc[w] = <<"gone">> /\ end' = "over"
           /\ UNCHANGED <<queue, running, wpc, runs, todo, count, waiting, inside>>
WorkerStep(w) == Look(w) \/ Take(w) \/ Enter(w) \/ Run(w)
Next == (\E t \in Tasks : Submit(t)) \/ (\E w \in Workers : WorkerStep(w)) \/ EndWait \/ EndStop \/ EndJoin
Spec == Init /\ [][Next]_vars /\ (\A w \in Workers : WF_vars(WorkerStep(w))) /\ (\A t \in Tasks : WF_vars(Submit(t)))
             /\ WF_vars(EndWait) /\ WF_vars(EndStop) /\ WF_vars(EndJoin)
AtMostOnce == \A t \in Tasks : runs[t] <= 1
AllRun == end = "over" => \A t \in Tasks : runs[t] = 1
Limited == Cardinality(inside) <= Places
Over == <>(end = "over")
=============================================================================
