----------------------------- MODULE Precompute -----------------------------
(***************************************************************************)
(* The precomputation buffers: two queues behind one lock, a bound and a    *)
(* "populate allowed" flag.  Each action is one critical section of the     *)
(* code.  populate() is a loop of PopStep critical sections that ends when  *)
(* the flag is off or the main queue is full.  "made" numbers the entries;  *)
(* "out" is the history of entries handed out.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES q,       \* main queue (two triples and a quadruple): sequence of entry ids
          t,       \* triple queue
          max, ok, \* configured size, populate allowed
          made, out
pvars == <<q, t, max, ok, made, out>>

PInit == q = <<>> /\ t = <<>> /\ max = 5000 /\ ok = FALSE /\ made = 0 /\ out = <<>>

DoInit(n)  == max' = (IF n = 0 THEN 5000 ELSE n) /\ ok' = TRUE /\ UNCHANGED <<q, t, made, out>>
DoStop     == ok' = FALSE /\ UNCHANGED <<q, t, max, made, out>>
DoEmpty    == q' = <<>> /\ t' = <<>> /\ UNCHANGED <<max, ok, made, out>>
CanPop     == ok /\ Len(q) < max
\* iteration i of a populate call (every third one also makes two triples)
PopStep(i) == /\ CanPop
              /\ q' = Append(q, made + 1)
              /\ t' = IF i % 3 = 0 THEN t \o <<made + 2, made + 3>> ELSE t
              /\ made' = made + (IF i % 3 = 0 THEN 3 ELSE 1)
              /\ UNCHANGED <<max, ok, out>>
TakeQ == IF q = <<>> THEN UNCHANGED pvars
         ELSE q' = Tail(q) /\ out' = Append(out, Head(q)) /\ UNCHANGED <<t, max, ok, made>>
TakeT == IF t = <<>> THEN UNCHANGED pvars
         ELSE t' = Tail(t) /\ out' = Append(out, Head(t)) /\ UNCHANGED <<q, max, ok, made>>

\* a whole populate call, run alone
RECURSIVE Filled(_, _, _, _)
Filled(n, i, qq, tt) == IF n <= Len(qq) THEN <<i, qq, tt>>
    ELSE Filled(n, i + 1, Append(qq, 0), IF i % 3 = 0 THEN tt \o <<0, 0>> ELSE tt)
=============================================================================
