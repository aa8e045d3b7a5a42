----------------------------- MODULE MC_Queue -------------------------------
(***************************************************************************)
(* The design of the queue: a linked list with a dummy node at the tail, a *)
(* lock for each end.  Producers append at the tail under the tail lock,   *)
(* consumers remove at the head under the head lock and look at the tail   *)
(* under the tail lock.  Every interleaving of the single steps.           *)
(* Lock = "none" leaves out the head lock, "late" publishes a node before  *)
(* its value is stored: both must be rejected.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Producers, Consumers, Each, Lock
VARIABLES head, tail, next, data, hl, tl, pc, loc, left, pushed, popped, got, empties, fresh
vars == <<head, tail, next, data, hl, tl, pc, loc, left, pushed, popped, got, empties, fresh>>
Nodes == 0..(Cardinality(Producers) * Each)
Threads == Producers \cup Consumers
Free == "free"
None == 0

Init == /\ head = 0 /\ tail = 0 /\ next = [n \in Nodes |-> -1] /\ data = [n \in Nodes |-> None]
        /\ hl = Free /\ tl = Free /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> -1]
        /\ left = [t \in Threads |-> Each] /\ pushed = <<>> /\ popped = <<>> /\ got = [c \in Consumers |-> <<>>] /\ empties = 0 /\ fresh = 1

\* the values in the queue: along the list from the head up to the dummy at the tail
RECURSIVE Along(_)
Along(n) == IF n = tail \/ n = -1 THEN <<>> ELSE <<data[n]>> \o Along(next[n])
Contents == Along(head)

Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
\* ---- push; the value is the number of the node that becomes the new dummy
PStart(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ loc' = [loc EXCEPT ![t] = fresh] /\ fresh' = fresh + 1
             /\ Goto(t, "plock") /\ UNCHANGED <<head, tail, next, data, hl, tl, pushed, popped, got, empties>>
PLock(t) == /\ pc[t] = "plock" /\ tl = Free /\ tl' = t /\ Goto(t, IF Lock = "late" THEN "plink" ELSE "pdata")
            /\ UNCHANGED <<head, tail, next, data, hl, loc, left, pushed, popped, got, empties, fresh>>
PData(t) == /\ pc[t] = "pdata" /\ data' = [data EXCEPT ![IF Lock = "late" THEN loc[t] - 1 ELSE tail] = loc[t]]
            /\ Goto(t, IF Lock = "late" THEN "idle" ELSE "plink")
            /\ UNCHANGED <<head, tail, next, hl, tl, loc, left, pushed, popped, got, empties, fresh>>
PLink(t) == /\ pc[t] = "plink" /\ next' = [next EXCEPT ![tail] = loc[t]] /\ Goto(t, "pmove")
            /\ UNCHANGED <<head, tail, data, hl, tl, loc, left, pushed, popped, got, empties, fresh>>
PMove(t) == /\ pc[t] = "pmove" /\ tail' = loc[t] /\ tl' = Free /\ pushed' = Append(pushed, loc[t])
            /\ Goto(t, IF Lock = "late" THEN "pdata" ELSE "idle")
            /\ UNCHANGED <<head, next, data, hl, loc, left, popped, got, empties, fresh>>
\* ---- pop
CStart(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ IF Lock = "none" THEN UNCHANGED hl ELSE hl = Free /\ hl' = t
             /\ Goto(t, "ctail") /\ UNCHANGED <<head, tail, next, data, tl, loc, pushed, popped, got, empties, fresh>>
CTail(t) == /\ pc[t] = "ctail" /\ tl = Free /\ loc' = [loc EXCEPT ![t] = tail]
            /\ IF head = tail
               THEN Goto(t, "idle") /\ empties' = empties + (IF Contents = <<>> THEN 0 ELSE 1) /\ (IF Lock = "none" THEN UNCHANGED hl ELSE hl' = Free)
               ELSE Goto(t, "cread") /\ UNCHANGED <<empties, hl>>
            /\ UNCHANGED <<head, tail, next, data, tl, left, pushed, popped, got, fresh>>
CRead(t) == /\ pc[t] = "cread" /\ got' = [got EXCEPT ![t] = Append(@, data[head])] /\ Goto(t, "cmove")
            /\ UNCHANGED <<head, tail, next, data, hl, tl, loc, left, pushed, popped, empties, fresh>>
CMove(t) == /\ pc[t] = "cmove" /\ head' = (IF next[head] = -1 THEN head ELSE next[head]) /\ popped' = Append(popped, got[t][Len(got[t])])
            /\ (IF Lock = "none" THEN UNCHANGED hl ELSE hl' = Free) /\ Goto(t, "idle")
            /\ UNCHANGED <<tail, next, data, tl, loc, left, pushed, got, empties, fresh>>
Next == \/ \E t \in Producers : PStart(t) \/ PLock(t) \/ PData(t) \/ PLink(t) \/ PMove(t)
        \/ \E t \in Consumers : CStart(t) \/ CTail(t) \/ CRead(t) \/ CMove(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what was taken, then what is there, is what was pushed: nothing lost, doubled or reordered
Fifo == Lock # "late" => popped \o Contents = pushed
Values == \A i \in DOMAIN popped : popped[i] # None
Once == \A i, j \in DOMAIN popped : i # j => popped[i] # popped[j]
Truthful == empties = 0
Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Finishes == <>Done
=============================================================================
