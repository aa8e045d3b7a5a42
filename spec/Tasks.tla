------------------------------- MODULE Tasks --------------------------------
(***************************************************************************)
(* Background work: the queue between threads, the semaphore that limits   *)
(* how many work at once, and the pool whose workers take tasks from a     *)
(* queue (src/electionguard/async.hpp).  What callers may rely on:         *)
(*   queue     - every value pushed comes out exactly once, in the order   *)
(*               of the pushes; "nothing" only when it was empty at some   *)
(*               moment of the call (linearizability)                      *)
(*   semaphore - never more holders than places, and a place given back    *)
(*               reaches a waiting thread                                  *)
(*   pool      - every task submitted runs exactly once, its result or     *)
(*               failure reaches its submitter, and a pool that is gone    *)
(*               has run everything that was submitted to it               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* ---- the queue, as an object with atomic operations: op -> <<answer, contents afterwards>>
\* answers: <<>> is "nothing", <<v>> a value; of empty? "yes" / "no"
QApply(o, q) ==
    CASE o.f = "push" -> << <<>>, Append(q, o.v) >>
      [] o.f \in {"pop", "take"} -> IF q = <<>> THEN << <<>>, q >> ELSE << <<Head(q)>>, Tail(q) >>
      [] o.f = "empty" -> << IF q = <<>> THEN <<1>> ELSE <<0>>, q >>

\* A history is a set of calls [f, v, a (answer), t0, t1] with the instants at which they began
\* and ended.  It is linearizable from contents q iff its calls can be put in an order that
\* respects the instants and in which QApply gives every answer.
RECURSIVE Linearizable(_, _)
Linearizable(h, q) ==
    \/ h = {}
    \/ \E o \in h : /\ \A x \in h : ~(x.t1 < o.t0)
                    /\ LET r == QApply(o, q) IN r[1] = o.a /\ Linearizable(h \ {o}, r[2])

\* ---- a long run: producers each push 1, 2, ... n (value = producer * 1000000 + i)
Producer(v) == v \div 1000000
Item(v) == v % 1000000
\* each consumer sees the values of one producer in the order of the pushes
InOrder(s) == \A p \in {Producer(s[i]) : i \in DOMAIN s} :
                LET m == SelectSeq(s, LAMBDA v : Producer(v) = p) IN \A i \in 1..(Len(m) - 1) : m[i] < m[i + 1]
=============================================================================
