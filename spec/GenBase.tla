------------------------------ MODULE GenBase -------------------------------
(* Helpers for scenario generation: every choice is a function of the seed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, EGGroup

Seed  == EnvText("VERIF_SEED", "1")
Tier  == EnvText("eg.tier", "quick")
Out   == EnvText("eg.out", "scenarios.json")
Deep  == Tier = "thorough"
\* families are made smaller by a divisor where they serve another interface or build
Div   == DInt(EnvText("eg.div", "1"))
N(quick, deep) == LET n == (IF Deep THEN deep ELSE quick) \div Div IN IF n < 1 THEN 1 ELSE n

S(s, i) == s \o "/" \o ToString(i)
PickOf(s, seq) == seq[1 + Pick(s, Len(seq))]
Chance(s, k, n) == Pick(s, n) < k
Between(s, lo, hi) == lo + Pick(s, hi - lo + 1)
Emit(scenarios) == JsonSerialize(Out, scenarios)
\* a random subsequence / permutation
RECURSIVE Shuffle(_, _)
Shuffle(s, seq) == IF Len(seq) <= 1 THEN seq
    ELSE LET k == 1 + Pick(S(s, Len(seq)), Len(seq)) IN
         <<seq[k]>> \o Shuffle(s, RemoveAt(seq, k))

Rev(seq) == [i \in 1..Len(seq) |-> seq[Len(seq) + 1 - i]]

\* --- numbers
Half(x) == IDiv(x, "02")
SpecialP == << "00", "01", "02", "03", ISub(P, "01"), ISub(P, "02"), ISub(P, "03"), Half(P), IAdd(Half(P), "01"),
               Q, ISub(Q, "01"), IAdd(Q, "01"), G, PInv(G), "FF", "0100", "FFFFFFFFFFFFFFFF", "010000000000000000",
               IMod(ISub(MaxP, P), P), IAdd(ISub(MaxP, P), "01"), ISub(MaxP, Half(P)), Half(MaxP), IAdd(Half(MaxP), "01"),
               TwoPow(512), ISub(TwoPow(512), "01"), TwoPow(511), TwoPow(4095), TwoPow(4088), TwoPow(2048), TwoPow(256), TwoPow(64),
               ISub(TwoPow(256), "01"), ISub(P, TwoPow(64)), ISub(P, TwoPow(256)) >>
SpecialQ == << "00", "01", "02", "03", ISub(Q, "01"), ISub(Q, "02"), ISub(Q, "03"), Half(Q), IAdd(Half(Q), "01"), "FF", "0100",
               "BC", "BD", "BE", "FFFFFFFFFFFFFFFF", "010000000000000000", TwoPow(255), TwoPow(128), TwoPow(192), TwoPow(248),
               ISub(TwoPow(255), "01"), ISub(TwoPow(128), "01"), ISub(Q, TwoPow(64)), ISub(Q, TwoPow(128)) >>
LimbKinds == << "0000000000000000", "FFFFFFFFFFFFFFFF", "0000000000000001", "8000000000000000", "FFFFFFFFFFFFFFFE", "7FFFFFFFFFFFFFFF", "R", "R" >>
LimbText(s) == LET k == PickOf(s, LimbKinds) IN IF k = "R" THEN PickBytes(s, 8) ELSE k
LimbNum(s, n) == BNum(TJoin([i \in 1..n |-> LimbText(S(s, i))], ""))
ShortNum(s, n) == BNum(PickBytes(s, 1 + Pick(S(s, "len"), n)))
RndQ(s) == LET k == Pick(S(s, "kind"), 8) IN
    CASE k \in {0, 1} -> PickOf(s, SpecialQ)
      [] k = 2 -> IMod(LimbNum(s, 4), Q)
      [] k = 3 -> IMod(ShortNum(s, 32), Q)
      [] OTHER -> IMod(BNum(PickBytes(s, 48)), Q)
RndP(s) == LET k == Pick(S(s, "kind"), 8) IN
    CASE k \in {0, 1} -> PickOf(s, SpecialP)
      [] k = 2 -> IMod(LimbNum(s, 64), P)
      [] k = 3 -> IMod(ShortNum(s, 512), P)
      [] OTHER -> IMod(BNum(PickBytes(s, 520)), P)
\* uniform, nonzero
UniQ(s) == IAdd(IMod(BNum(PickBytes(s, 48)), ISub(Q, "01")), "01")
UniRes(s) == PPow(G, UniQ(s))
=============================================================================
