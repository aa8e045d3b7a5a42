--------------------------- MODULE MC_Precompute ----------------------------
(***************************************************************************)
(* Exhaustive check of the precomputation design: threads that populate,   *)
(* take, stop, re-initialise and empty, interleaved at critical sections.  *)
(* LOCKED = FALSE is the deliberately broken variant (size test and push   *)
(* in separate steps, take without atomic pop), used to show that the      *)
(* invariants discriminate.                                                *)
(***************************************************************************)
EXTENDS Precompute, TLC
CONSTANTS Producers, Takers, Controllers, MAXQ, LIMIT, LOCKED
VARIABLES pc, it, held
vars == <<q, t, max, ok, made, out, pc, it, held>>
Threads == Producers \cup Takers \cup Controllers

MInit == /\ q = <<>> /\ t = <<>> /\ max = MAXQ /\ ok = TRUE /\ made = 0 /\ out = <<>>
         /\ pc = [x \in Threads |-> "idle"] /\ it = [x \in Producers |-> 0] /\ held = [x \in Takers |-> 0]

Start(p)  == /\ pc[p] = "idle" /\ pc' = [pc EXCEPT ![p] = "loop"] /\ it' = [it EXCEPT ![p] = 0] /\ UNCHANGED <<pvars, held>>
Loop(p)   == /\ pc[p] = "loop" /\ LOCKED
             /\ \/ CanPop /\ PopStep(it[p]) /\ it' = [it EXCEPT ![p] = (@ + 1) % 3] /\ UNCHANGED <<pc, held>>
                \/ ~CanPop /\ UNCHANGED <<pvars, it, held>> /\ pc' = [pc EXCEPT ![p] = "idle"]
\* broken: test in one step, push in another
Test(p)   == /\ pc[p] = "loop" /\ ~LOCKED /\ UNCHANGED <<pvars, it, held>>
             /\ pc' = [pc EXCEPT ![p] = IF CanPop THEN "push" ELSE "idle"]
Push(p)   == /\ pc[p] = "push" /\ q' = Append(q, made + 1) /\ made' = made + 1 /\ UNCHANGED <<t, max, ok, out, it, held>>
             /\ pc' = [pc EXCEPT ![p] = "loop"]
Take(c)   == LOCKED /\ (TakeQ \/ TakeT) /\ UNCHANGED <<pc, it, held>>
Peek(c)   == ~LOCKED /\ pc[c] = "idle" /\ q # <<>> /\ held' = [held EXCEPT ![c] = Head(q)]
             /\ pc' = [pc EXCEPT ![c] = "pop"] /\ UNCHANGED <<pvars, it>>
PopIt(c)  == pc[c] = "pop" /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ out' = Append(out, held[c])
             /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<t, max, ok, made, it, held>>
Control(c) == (DoStop \/ DoInit(MAXQ) \/ DoEmpty) /\ UNCHANGED <<pc, it, held>>
MNext == (\E p \in Producers : Start(p) \/ Loop(p) \/ Test(p) \/ Push(p))
         \/ (\E c \in Takers : Take(c) \/ Peek(c) \/ PopIt(c)) \/ (\E c \in Controllers : Control(c))
Bound == made <= LIMIT
Spec == MInit /\ [][MNext]_vars /\ \A p \in Producers : WF_vars(Loop(p))

SizeBound == Len(q) <= max
AtMostOnce == /\ \A i, j \in DOMAIN out : i # j => out[i] # out[j]
              /\ \A i, j \in DOMAIN q : i # j => q[i] # q[j]
              /\ \A i \in DOMAIN out : \A j \in DOMAIN q : out[i] # q[j]
              /\ \A i \in DOMAIN out : \A j \in DOMAIN t : out[i] # t[j]
\* stopping halts production: while not allowed, nothing is made
Halted == [][~ok => made' = made]_vars
\* a producer that is running eventually returns once production is stopped for good
Returns == (<>[](~ok)) => \A p \in Producers : []<>(pc[p] # "loop")
Fifo == [][\/ q' = q \/ (Len(q) > 0 /\ q' = Tail(q)) \/ q' = <<>> \/ (\E e \in 1..(made + 3) : q' = Append(q, e))]_vars
=============================================================================
