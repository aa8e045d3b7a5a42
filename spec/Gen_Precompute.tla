--------------------------- MODULE Gen_Precompute ---------------------------
EXTENDS GenBase
Want == EnvText("eg.want", "seq")
Key(s) == UniRes(S(s, "key"))
OpAt(s, k) == LET c == Pick(s, 14) IN
    CASE c = 0 -> [op |-> "pre_init", n |-> Between(S(s, "n"), 1, 5)]
      [] c = 1 -> [op |-> "pre_stop"]
      [] c = 2 -> [op |-> "pre_empty"]
      [] c \in 3..6 -> [op |-> "pre_populate", k |-> k, fixed |-> Chance(S(s, "fx"), 1, 3)]
      [] c \in 7..10 -> [op |-> "pre_ttq"]
      [] OTHER -> [op |-> "pre_triple"]
SeqScen(n, len) == [c \in 1..n |-> LET s == S(S(Seed, "pre"), c) k == Key(s) IN
    [id |-> S("seq", c), ops |-> <<[op |-> "pre_key", k |-> k], [op |-> "pre_ttq"], [op |-> "pre_triple"],
        \* before the first init nothing may be produced
        [op |-> "pre_populate", k |-> k, fixed |-> FALSE],
        [op |-> "pre_init", n |-> Between(S(s, "n0"), 1, 6)]>> \o [i \in 1..len |-> OpAt(S(s, i), k)]]]
Thr(s, rounds, ms) == LET k == Key(s) IN
    <<[op |-> "pre_key", k |-> k],
      [op |-> "pre_threads", k |-> k, size |-> Between(S(s, "sz"), 1, 6), producers |-> Between(S(s, "p"), 1, 3),
       ttq |-> Between(S(s, "q"), 1, 3), tri |-> Between(S(s, "t"), 1, 2), stoppers |-> Pick(S(s, "st"), 2), rounds |-> rounds, ms |-> ms, empties |-> Chance(S(s, "em"), 1, 2)]>>
ThrScen(n, rounds, ms) == [c \in 1..n |-> LET s == S(S(Seed, "thr"), c) IN [id |-> S("thr", c), ops |-> Thr(s, rounds, ms)]]
MidScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "mid"), c) k == Key(s) IN
    [id |-> S("mid", c), ops |-> <<[op |-> "pre_key", k |-> k],
        [op |-> "pre_stop_midway", k |-> k, size |-> 100000, ms |-> Between(s, 1, 120)],
        [op |-> "pre_init", n |-> 2], [op |-> "pre_populate", k |-> k, fixed |-> FALSE], [op |-> "pre_ttq"], [op |-> "pre_ttq"], [op |-> "pre_ttq"]>>]]
\* many entries, then everything is discarded
BigScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "big"), c) k == Key(s) IN
    [id |-> S("big", c), ops |-> <<[op |-> "pre_key", k |-> k], [op |-> "pre_init", n |-> 14 + 9 * c], [op |-> "pre_populate", k |-> k, fixed |-> TRUE],
        [op |-> "pre_ttq"], [op |-> "pre_triple"], [op |-> "pre_empty"], [op |-> "pre_triple"], [op |-> "pre_ttq"], [op |-> "pre_init", n |-> 2],
        [op |-> "pre_populate", k |-> k, fixed |-> FALSE]>> \o [i \in 1..3 |-> [op |-> "pre_ttq"]] \o [i \in 1..3 |-> [op |-> "pre_triple"]]]]
ASSUME Emit(CASE Want = "seq" -> SeqScen(N(40, 300), N(25, 40)) \o MidScen(N(4, 20)) \o ThrScen(N(16, 100), N(20, 40), 250) \o BigScen(N(3, 12))
              [] Want = "thr" -> ThrScen(N(6, 24), 12, 1500))
=============================================================================
