----------------------------- MODULE Gen_Tasks ------------------------------
(* Scenarios of background work: short concurrent histories of the queue,   *)
(* long runs, pools of every small size, semaphores.                        *)
EXTENDS GenBase
Want == EnvText("eg.want", "all")
CallAt(s, i) == LET k == Pick(S(s, "f"), 9) IN
    [f |-> CASE k < 4 -> "push" [] k \in {4, 5} -> "pop" [] k \in {6, 7} -> "take" [] OTHER -> "empty", v |-> i]
Hist(s, threads, calls, rounds) ==
    [op |-> "q_hist", rounds |-> rounds, pre |-> [i \in 1..Pick(S(s, "pre"), 3) |-> 100 + i],
     threads |-> [t \in 1..threads |-> [i \in 1..calls |-> CallAt(S(S(s, t), i), 10 * t + i)]]]
HistScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "h"), c) IN [id |-> S("hist", c), ops |->
    << Hist(S(s, 1), 1, 9, 1), Hist(S(s, 2), 2, 4, N(80, 300)), Hist(S(s, 3), 3, 3, N(80, 300)), Hist(S(s, 4), 4, 2, N(80, 300)) >>]]
StressScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "s"), c) IN [id |-> S("stress", c), ops |->
    << [op |-> "q_stress", producers |-> 1 + Pick(S(s, "p"), 3), consumers |-> 1 + Pick(S(s, "c"), 3), n |-> N(300, 1500)] >>]]
\* ThreadSanitizer cannot see the reference count of an exception that two
\* threads hold, so that no task throws there
Kind(s) == PickOf(s, <<"value", "value", "value", IF Want = "tsan" THEN "value" ELSE "fail", "slow", "nest">>)
Plain(k) == IF k = "nest" THEN "slow" ELSE k
PoolOp(s, n) == LET drop == Chance(S(s, "drop"), 1, 2) sched == ~drop /\ Chance(S(s, "sched"), 1, 3) IN
    [op |-> "pool", workers |-> 1 + Pick(S(s, "w"), 5), submitters |-> 1 + Pick(S(s, "sub"), 3), sched |-> sched, drop |-> drop,
     tasks |-> [i \in 1..n |-> IF drop THEN Plain(Kind(S(s, i))) ELSE Kind(S(s, i))]]
PoolScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "p"), c) IN [id |-> S("pool", c), ops |->
    << PoolOp(S(s, 1), Pick(S(s, "n"), 4)), PoolOp(S(s, 2), 1 + Pick(S(s, "n2"), 12)), PoolOp(S(s, 3), N(60, 300)) >>]]
SemScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "sem"), c) k == 1 + Pick(S(s, "k"), 4) IN [id |-> S("sem", c), ops |->
    << [op |-> "sem", count |-> k, threads |-> k + Pick(S(s, "t"), 5), rounds |-> N(60, 400), calm |-> TRUE],
       [op |-> "sem", count |-> 1 + (c % 2), threads |-> 4 + Pick(S(s, "t2"), 5), rounds |-> N(1500, 6000), calm |-> FALSE],
       [op |-> "sem_burst", waiters |-> 2 + Pick(S(s, "bw"), 4), rounds |-> N(5, 20)],
       [op |-> "sem_hand", count |-> k + 1, waiters |-> 1 + Pick(S(s, "w"), k + 1)],
       [op |-> "sem_wait", threads |-> 1 + Pick(S(s, "wt"), 5)],
       [op |-> "waitall", delays |-> [i \in 1..Pick(S(s, "wa"), 7) |-> Pick(S(S(s, "d"), i), 5)]] >>]]
ASSUME Emit(HistScen(N(24, 100)) \o StressScen(N(16, 80)) \o PoolScen(N(40, 200)) \o SemScen(N(24, 100)))
=============================================================================
