----------------------------- MODULE MC_FixedBase ---------------------------
(***************************************************************************)
(* Threads raising bases to powers through the shared cache, over a toy     *)
(* group, every interleaving.  LOCKED = FALSE separates the search from the *)
(* insertion and publishes a table before it is filled (negative control).  *)
(* KEYED = FALSE makes two bases share a key (negative control).            *)
(***************************************************************************)
EXTENDS FixedBase
CONSTANTS Threads, Bases, Exps, LOCKED, KEYED
VARIABLES cache, pc, job, res
vars == <<cache, pc, job, res>>
W == 2
Rows == 2
Key(b) == IF KEYED THEN b ELSE "same"
Init == cache = <<>> /\ pc = [t \in Threads |-> "idle"] /\ job = [t \in Threads |-> <<>>] /\ res = [t \in Threads |-> "none"]
Begin(t, b, e) == /\ pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "get"] /\ job' = [job EXCEPT ![t] = <<b, e>>] /\ res' = [res EXCEPT ![t] = "none"] /\ UNCHANGED cache
Get(t) == /\ pc[t] = "get" /\ UNCHANGED <<job, res>>
          /\ IF Key(job[t][1]) \in DOMAIN cache THEN pc' = [pc EXCEPT ![t] = "use"] /\ UNCHANGED cache
             ELSE IF LOCKED THEN cache' = (Key(job[t][1]) :> Fill(job[t][1], W, Rows)) @@ cache /\ pc' = [pc EXCEPT ![t] = "use"]
             ELSE cache' = (Key(job[t][1]) :> <<Fill(job[t][1], W, 1)[1], [j \in 1..3 |-> Zero]>>) @@ cache /\ pc' = [pc EXCEPT ![t] = "fill"]
FillIt(t) == /\ pc[t] = "fill" /\ cache' = (Key(job[t][1]) :> Fill(job[t][1], W, Rows)) @@ cache /\ pc' = [pc EXCEPT ![t] = "use"] /\ UNCHANGED <<job, res>>
UseIt(t) == /\ pc[t] = "use" /\ res' = [res EXCEPT ![t] = Use(cache[Key(job[t][1])], job[t][2], W, Rows)] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<cache, job>>
Next == \E t \in Threads : (\E b \in Bases, e \in Exps : Begin(t, b, e)) \/ Get(t) \/ FillIt(t) \/ UseIt(t)
Correct == \A t \in Threads : res[t] # "none" => res[t] = PPow(job[t][1], NumOf(job[t][2]))
Tables == \A k \in DOMAIN cache : LOCKED /\ KEYED => \A i \in 1..Rows : \A j \in 1..3 : cache[k][i][j] = Table(k, W, Rows)[i - 1][j]
=============================================================================
