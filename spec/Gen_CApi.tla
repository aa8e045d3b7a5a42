------------------------------ MODULE Gen_CApi ------------------------------
(* Histories of the objects that only the C interface has: lists of pairs,  *)
(* extended data, statuses, releasing nothing.                              *)
EXTENDS GenBase
Texts == << "", "a", "key", "Zürich", "日本語", "with \"quotes\"", "x y", "a" >>
T(s) == PickOf(s, Texts)
Ix == << "0", "1", "2", "3", "5", "18446744073709551615" >>
Lists == << "A", "B" >>
ListOp(s) == LET k == Pick(S(s, "k"), 12) n == PickOf(S(s, "n"), Lists) IN
    CASE k \in 0..4 -> [op |-> "ll_append", n |-> n, k |-> T(S(s, "key")), v |-> T(S(s, "val"))]
      [] k \in 5..7 -> [op |-> "ll_pop", n |-> n]
      [] k \in 8..9 -> [op |-> "ll_at", n |-> n, i |-> PickOf(S(s, "i"), Ix)]
      [] k = 10 -> [op |-> "ll_new", n |-> n]
      [] OTHER -> [op |-> "xd_new", v |-> T(S(s, "x")), len |-> PickOf(S(s, "i"), Ix)]
Fresh == << [op |-> "ll_new", n |-> "A"], [op |-> "ll_new", n |-> "B"] >>
Random(u_) == [c \in 1..N(60, 600) |-> LET s == S(S(Seed, "ll"), c) IN
    [id |-> S("list", c), ops |-> Fresh \o [i \in 1..30 |-> ListOp(S(s, i))]]]
\* every sequence of appends and pops up to a length on one list
RECURSIVE Words2(_)
Words2(n) == IF n = 0 THEN {<<>>} ELSE LET w == Words2(n - 1) IN w \cup {Append(x, y) : x \in {z \in w : Len(z) = n - 1}, y \in {"+", "-"}}
AsOps(w) == << [op |-> "ll_new", n |-> "A"] >> \o [i \in DOMAIN w |-> IF w[i] = "+" THEN [op |-> "ll_append", n |-> "A", k |-> ToString(i), v |-> "v"] ELSE [op |-> "ll_pop", n |-> "A"]]
            \o << [op |-> "ll_at", n |-> "A", i |-> "0"], [op |-> "ll_at", n |-> "A", i |-> "1"], [op |-> "ll_free", n |-> "A"] >>
Small(u_) == LET q == SetToSeq(Words2(N(5, 8))) IN [i \in DOMAIN q |-> [id |-> S("small", i), ops |-> AsOps(q[i])]]
ASSUME Emit(Random(0) \o Small(0) \o << [id |-> "null", ops |-> <<[op |-> "null_free"]>>], [id |-> "status", ops |-> <<[op |-> "st_text"]>>] >>)
=============================================================================
