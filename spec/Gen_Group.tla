----------------------------- MODULE Gen_Group ------------------------------
(* Scenarios for arithmetic, conversions and the element machine.           *)
EXTENDS GenBase

Want == EnvText("eg.want", "arith")

\* --- arithmetic: the second operand is often chosen relative to the first, so that sums and
\* differences land on, just below and just above 0, the modulus and the word-size limit
Related(s, x, m, top) ==
    LET opts == << ISub(m, x), Pred(ISub(m, x)), IAdd(ISub(m, x), One), x, IF x = Zero THEN Zero ELSE Pred(x),
                   IAdd(x, One), IF ILt(x, top) THEN ISub(top, x) ELSE Zero,
                   IF ILt(x, top) THEN IAdd(ISub(top, x), One) ELSE Zero >>
    IN IMod(PickOf(s, opts), m)
PairP(s) == LET x == RndP(S(s, "x")) IN
    <<x, IF Chance(S(s, "rel"), 1, 2) THEN Related(s, x, P, MaxP) ELSE RndP(S(s, "y"))>>
PairQ(s) == LET x == RndQ(S(s, "x")) IN
    <<x, IF Chance(S(s, "rel"), 1, 2) THEN Related(s, x, Q, MaxQ) ELSE RndQ(S(s, "y"))>>
TripleQ(s) ==
    LET b == RndQ(S(s, "b")) c == RndQ(S(s, "c")) bc == QMul(b, c)
        a == IF Chance(S(s, "rel"), 1, 2) THEN Related(s, bc, Q, MaxQ) ELSE RndQ(S(s, "a"))
    IN <<a, b, c>>
Call(f, x) == [op |-> "arith", f |-> f, x |-> x]
CheapF == << "add_mod_p", "add_mod_p", "mul_mod_p", "mod_p", "add_mod_q", "add_mod_q", "sub_mod_q", "sub_mod_q", "a_plus_bc", "a_plus_bc",
             "sub_from_q", "to_p", "lt_p", "lt_q", "eq_p", "eq_q", "ne_p", "ne_q", "inbounds_p", "inbounds_q",
             "add_list_q", "mul_list" >>
\* wide values for mod_p and the range tests: any 4096/256-bit number
WideP(s) == IF Chance(S(s, "w"), 1, 2) THEN PickOf(s, <<P, IAdd(P, One), Pred(P), MaxP, Pred(MaxP), Zero, One, IAdd(P, Q)>>)
            ELSE BNum(PickBytes(s, 512))
WideQ(s) == IF Chance(S(s, "w"), 1, 2) THEN PickOf(s, <<Q, IAdd(Q, One), Pred(Q), MaxQ, Pred(MaxQ), Zero, One>>)
            ELSE BNum(PickBytes(s, 32))
CheapCall(s) ==
    LET f == PickOf(S(s, "f"), CheapF) IN
    CASE f \in {"add_mod_p", "mul_mod_p", "lt_p", "eq_p", "ne_p"} -> Call(f, PairP(s))
      [] f \in {"add_mod_q", "sub_mod_q", "lt_q", "eq_q", "ne_q"} -> Call(f, PairQ(s))
      [] f = "a_plus_bc" -> Call(f, TripleQ(s))
      [] f \in {"mod_p", "inbounds_p"} -> Call(f, <<WideP(s)>>)
      [] f = "inbounds_q" -> Call(f, <<WideQ(s)>>)
      [] f \in {"sub_from_q", "to_p"} -> Call(f, <<RndQ(s)>>)
      [] f = "add_list_q" -> Call(f, [i \in 1..(IF Chance(S(s, "many"), 1, 12) THEN 80 ELSE Pick(S(s, "n"), 6)) |-> RndQ(S(s, i))])
      [] f = "mul_list" -> Call(f, [i \in 1..(IF Chance(S(s, "many"), 1, 12) THEN 40 ELSE Pick(S(s, "n"), 5)) |->
                               IF Chance(S(s, i), 1, 2) THEN "q" \o RndQ(S(s, i)) ELSE "p" \o RndP(S(s, i))])
PowF == << "pow_pq", "pow_pq", "pow_fixed", "g_pow_pq", "g_pow_pq", "residue", "residue" >>
NonRes(s) == LET x == UniRes(s) IN ISub(P, x)             \* order 2Q: not in the subgroup
PowCall(s) ==
    LET f == PickOf(S(s, "f"), PowF) IN
    CASE f \in {"pow_pq", "pow_fixed"} -> Call(f, <<IF Chance(S(s, "res"), 1, 2) THEN UniRes(s) ELSE RndP(S(s, "b")), RndQ(S(s, "e"))>>)
      [] f = "g_pow_pq" -> Call(f, <<RndQ(S(s, "e"))>>)
      [] f = "residue" -> Call(f, <<CASE Pick(S(s, "r"), 4) = 0 -> UniRes(s)
                                      [] Pick(S(s, "r"), 4) = 1 -> NonRes(s)
                                      [] Pick(S(s, "r"), 4) = 2 -> WideP(s)
                                      [] OTHER -> RndP(s)>>)
BigPow(s) == IF Chance(S(s, "g"), 1, 4) THEN Call("g_pow_pp", <<RndP(S(s, "e"))>>)
             ELSE Call("pow_pp", <<RndP(S(s, "b")), RndP(S(s, "e"))>>)

Chunk(name, n, size, F(_)) == [c \in 1..n |-> [id |-> S(name, c), ops |-> [i \in 1..size |-> F(S(S(S(Seed, name), c), i))]]]

\* every ordered pair of special values, exhaustively
NP == Len(SpecialP)
NQ == Len(SpecialQ)
AllPairs(name, fs, sp, mod) ==
    [i \in 1..Len(sp) |-> [id |-> S(name, i), ops |->
        [k \in 1..(Len(sp) * Len(fs)) |->
            Call(fs[1 + ((k - 1) % Len(fs))], <<IMod(sp[i], mod), IMod(sp[1 + ((k - 1) \div Len(fs))], mod)>>)]]]

ArithScen(u_) ==
    << [id |-> "const", ops |-> <<[op |-> "constants"], [op |-> "rand", d |-> "q", n |-> N(64, 400)], [op |-> "rand", d |-> "p", n |-> N(64, 200)]>>] >>
    \o AllPairs("pairsP", <<"add_mod_p", "mul_mod_p", "lt_p">>, SpecialP, P)
    \o AllPairs("pairsQ", <<"add_mod_q", "sub_mod_q", "lt_q">>, SpecialQ, Q)
    \o [i \in 1..NQ |-> [id |-> S("unaryQ", i), ops |-> <<Call("sub_from_q", <<SpecialQ[i]>>), Call("to_p", <<SpecialQ[i]>>),
                              Call("inbounds_q", <<SpecialQ[i]>>), Call("g_pow_pq", <<SpecialQ[i]>>)>>]]
    \o Chunk("cheap", N(40, 400), 60, CheapCall)
    \o Chunk("pow", N(30, 200), 8, PowCall)
    \o Chunk("bigpow", N(12, 60), 2, BigPow)

\* --- random draws, from one thread, from several at once, and from processes that
\* share their past
RandScen(n) == [i \in 1..n |-> [id |-> S("rand", i), ops |->
    << [op |-> "rand", d |-> "q", n |-> N(160, 600), threads |-> PickOf(S(Seed, i), <<1, 2, 4, 8>>)],
       [op |-> "rand", d |-> "p", n |-> N(64, 200), threads |-> PickOf(S(Seed, i), <<8, 4, 2, 1>>)],
       [op |-> "rand", d |-> "q", n |-> N(40, 200), threads |-> 1, forks |-> 1 + (i % 3)] >>]]

\* --- conversions
HexCase(s) == LET v == IF Chance(S(s, "d"), 1, 2) THEN WideQ(s) ELSE RndQ(s) IN v
BadTexts == << "", "G", "0G", "1G", "G1", "+1", "-1", "0x1", "0X1F", "1 2", "12 ", "1\t", "FFZ0", "ZZ", "-", "+", "1-", "a+", "12.5", "A\\nB", "0x", "%41", "f_f" >>
ConvD(s) == IF Chance(S(s, "dom"), 1, 2) THEN "p" ELSE "q"
ConvCall(s) ==
    LET d   == ConvD(s)
        how == PickOf(S(s, "how"), <<"hex", "hex", "hex", "words", "array", "u64", "bytes", "bytesptr">>)
        un  == Chance(S(s, "un"), 1, 3)
        v   == LET k == Pick(S(s, "vk"), 4) IN
               IF k = 0 THEN (IF d = "p" THEN WideP(S(s, "v")) ELSE WideQ(S(s, "v")))
               ELSE IF d = "p" THEN RndP(S(s, "v")) ELSE RndQ(S(s, "v"))
        C(x) == [op |-> "conv", d |-> d, how |-> how, x |-> x, un |-> un]
    IN CASE how = "hex" ->
              LET k == Pick(S(s, "hk"), 8) IN
              C(CASE k = 0 -> PickOf(S(s, "bad"), BadTexts)
                  [] k = 1 -> TextRepeat("0", 1 + Pick(S(s, "z"), 6)) \o v
                  [] k = 2 -> LowerText(v)
                  [] k = 3 -> IF TSub(v, 1, 1) = "0" /\ v # "00" THEN TTail(v) ELSE v
                  [] k = 4 -> IF d = "p" THEN TextRepeat("F", 1025 + Pick(S(s, "z"), 40)) ELSE TextRepeat("F", 65 + Pick(S(s, "z"), 40))
                  [] OTHER -> v)
         [] how = "words" ->
              LET max == IF d = "p" THEN 64 ELSE 4
                  n == CASE Pick(S(s, "nk"), 6) = 0 -> max + 1 + Pick(S(s, "n"), 3)
                         [] Pick(S(s, "nk"), 6) = 1 -> Pick(S(s, "n"), max)
                         [] OTHER -> max
                  full == BFix(v, 8 * max)
              IN C([i \in 1..n |-> IF i > max THEN PickBytes(S(s, i), 8) ELSE BSub(full, 8 * (max - i) + 1, 8 * (max - i) + 8)])
         [] how = "array" -> C(v)
         [] how = "u64"   -> C(PickOf(S(s, "u"), <<"0", "1", "2", "255", "256", "4294967295", "4294967296", "18446744073709551615",
                                                  "9223372036854775808", "72057594037927936", ToString(Pick(S(s, "u2"), 1000000000))>>))
         [] OTHER -> LET n == CASE Pick(S(s, "nk"), 8) = 0 -> ByteSize(d) + 1 + Pick(S(s, "n"), 9)
                                [] Pick(S(s, "nk"), 8) \in {1, 2} -> ByteSize(d)
                                [] OTHER -> Pick(S(s, "n"), ByteSize(d) + 1)
                     IN C(IF Chance(S(s, "bv"), 1, 3) THEN BFix(v, ByteSize(d))
                          ELSE IF Chance(S(s, "bz"), 1, 4) /\ n > 1 THEN BZero(1) \o PickBytes(S(s, "b"), n - 1) ELSE PickBytes(S(s, "b"), n))
FixedConv ==
    LET One1(d, how, x, un) == [op |-> "conv", d |-> d, how |-> how, x |-> x, un |-> un] IN
    [i \in 1..Len(BadTexts) |-> [id |-> S("bad", i), ops |-> <<One1("p", "hex", BadTexts[i], FALSE), One1("q", "hex", BadTexts[i], FALSE),
                                   One1("p", "hex", BadTexts[i], TRUE), One1("q", "hex", BadTexts[i], TRUE)>>]]
    \o [i \in 1..8 |-> [id |-> S("zero", i), ops |-> <<One1("p", "hex", TextRepeat("0", i), FALSE), One1("q", "hex", TextRepeat("0", i), FALSE)>>]]
    \o [i \in 1..40 |-> [id |-> S("blen", i), ops |-> <<One1("q", "bytes", PickBytes(S("q", i), i), TRUE), One1("p", "bytes", PickBytes(S("p", i), i), TRUE),
                             One1("p", "bytes", PickBytes(S("P", i), 512 - i), TRUE), One1("p", "bytesptr", PickBytes(S("P", i), 512 + (i % 5)), FALSE)>>]]
    \o [i \in 1..10 |-> [id |-> S("wlen", i), ops |-> <<One1("q", "words", [k \in 1..i |-> "0000000000000001"], FALSE)>>]]
    \o [i \in 1..10 |-> [id |-> S("wlenp", i), ops |-> <<One1("p", "words", [k \in 1..(60 + i) |-> "0000000000000001"], FALSE)>>]]
    \o [i \in 1..NP |-> [id |-> S("spP", i), ops |-> <<One1("p", "hex", SpecialP[i], FALSE), One1("p", "array", SpecialP[i], FALSE)>>]]
    \o [i \in 1..NQ |-> [id |-> S("spQ", i), ops |-> <<One1("q", "hex", SpecialQ[i], FALSE), One1("q", "array", SpecialQ[i], FALSE)>>]]

\* --- element machine (P07, P08)
RegNames == <<"pa", "pb", "pc", "pd", "pe">>
QNames == <<"qa", "qb", "qc">>
MachineOp(s) ==
    LET r1 == PickOf(S(s, "r1"), RegNames) r2 == PickOf(S(s, "r2"), RegNames) k == Pick(S(s, "k"), 16)
        q1 == PickOf(S(s, "q1"), QNames) q2 == PickOf(S(s, "q2"), QNames) IN
    CASE k \in {0, 1}    -> [op |-> "el_new", d |-> "p", r0 |-> r1, x |-> RndP(s)]
      [] k = 2           -> [op |-> "el_new", d |-> "q", r0 |-> q1, x |-> RndQ(s)]
      [] k \in {3, 4, 5} -> [op |-> "el_copy", d |-> "p", to |-> r1, from |-> r2, via |-> PickOf(S(s, "via"), <<"ctor", "clone", "assign">>)]
      [] k = 6           -> [op |-> "el_copy", d |-> "q", to |-> q1, from |-> q2, via |-> PickOf(S(s, "via"), <<"ctor", "clone", "assign">>)]
      [] k \in {7, 8, 9} -> [op |-> "el_show", d |-> "p", r0 |-> r1]
      [] k = 10          -> [op |-> "el_show", d |-> "q", r0 |-> q1]
      [] k \in {11, 12}  -> [op |-> "el_cmp", d |-> "p", x |-> r1, y |-> r2]
      [] k = 13          -> [op |-> "el_cmp", d |-> "q", x |-> q1, y |-> q2]
      [] k = 14          -> [op |-> "el_mul", to |-> r1, x |-> r2, y |-> PickOf(S(s, "r3"), RegNames)]
      [] k = 15          -> [op |-> "el_fix", r0 |-> r1, on |-> Chance(S(s, "on"), 1, 2)]
Prologue(s) == [i \in 1..5 |-> [op |-> "el_new", d |-> "p", r0 |-> RegNames[i], x |-> RndP(S(s, i))]]
               \o [i \in 1..3 |-> [op |-> "el_new", d |-> "q", r0 |-> QNames[i], x |-> RndQ(S(s, i))]]
MachineScen(name, n, len) == [c \in 1..n |-> LET s == S(S(Seed, name), c) IN
    [id |-> S(name, c), ops |-> Prologue(s) \o [i \in 1..len |-> MachineOp(S(s, i))]
                                 \o [i \in 1..5 |-> [op |-> "el_show", d |-> "p", r0 |-> RegNames[i]]]]]
ConvScen(u_) == FixedConv \o Chunk("conv", N(60, 600), 30, ConvCall) \o MachineScen("mach", N(30, 300), 60)

\* powers through fixed bases: many bases, re-marking, copies, values reassigned after a table exists
PowOp(s) ==
    LET r1 == PickOf(S(s, "r1"), RegNames) r2 == PickOf(S(s, "r2"), RegNames) k == Pick(S(s, "k"), 12) IN
    CASE k \in 0..5 -> [op |-> "el_pow", to |-> PickOf(S(s, "to"), <<"t1", "t2", r1>>), base |-> r1, e |-> RndQ(S(s, "e"))]
      [] k = 6      -> [op |-> "el_new", d |-> "p", r0 |-> r1, x |-> RndP(s)]
      [] k \in {7, 8} -> [op |-> "el_copy", d |-> "p", to |-> r1, from |-> r2, via |-> PickOf(S(s, "via"), <<"ctor", "clone", "assign">>)]
      [] k \in {9, 10} -> [op |-> "el_fix", r0 |-> r1, on |-> Chance(S(s, "on"), 3, 4)]
      [] k = 11     -> [op |-> "el_show", d |-> "p", r0 |-> r1]
PowScen(n, len) == [c \in 1..n |-> LET s == S(S(Seed, "fix"), c) IN
    [id |-> S("fix", c), ops |-> Prologue(s) \o [i \in 1..3 |-> [op |-> "el_fix", r0 |-> RegNames[i], on |-> TRUE]]
                                  \o [i \in 1..len |-> PowOp(S(s, i))]]]
\* exponent patterns: every single byte window position, and dense / sparse exponents
WindowE(i) == IF i <= 32 THEN IMod(IMul(BNum(PickBytes(S(Seed, i), 1)), TwoPow(8 * (i - 1))), Q)
              ELSE IF i <= 64 THEN IMod(IMul("FF", TwoPow(8 * (i - 33))), Q)
              ELSE IMod(IMul("01", TwoPow(8 * (i - 65))), Q)
WindowScen(u_) == [b \in 1..3 |-> [id |-> S("win", b), ops |->
    <<[op |-> "el_new", d |-> "p", r0 |-> "pa", x |-> IF b = 1 THEN G ELSE IF b = 2 THEN UniRes(S(Seed, "wb")) ELSE RndP(S(Seed, "wc"))],
      [op |-> "el_fix", r0 |-> "pa", on |-> TRUE]>>
    \o [i \in 1..96 |-> [op |-> "el_pow", to |-> "t", base |-> "pa", e |-> WindowE(i)]]]]
ThreadScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "thr"), c)
                                     nb == Between(S(s, "nb"), 3, 12)
                                     bases == [i \in 1..nb |-> IF Chance(S(S(s, "bb"), i), 1, 2) THEN UniRes(S(S(s, "b"), i)) ELSE RndP(S(S(s, "b"), i))] IN
    [id |-> S("thr", c), ops |-> <<[op |-> "el_threads", shared |-> Chance(S(s, "sh"), 1, 2),
        jobs |-> [t \in 1..8 |-> [i \in 1..4 |-> <<PickOf(S(S(s, t), i), bases), RndQ(S(S(S(s, t), i), "e"))>>]]]>>]]
\* many bases, each used again after all others
ManyScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "many"), c) k == 14 IN
    [id |-> S("many", c), ops |-> [i \in 1..k |-> [op |-> "el_new", d |-> "p", r0 |-> S("m", i), x |-> IF i > 3 /\ Chance(S(s, i), 1, 4) THEN RndP(S(s, i)) ELSE UniRes(S(s, i))]]
        \o [i \in 1..k |-> [op |-> "el_fix", r0 |-> S("m", i), on |-> TRUE]]
        \o [i \in 1..(2 * k) |-> [op |-> "el_pow", to |-> "t", base |-> S("m", 1 + (i % k)), e |-> RndQ(S(S(s, "e"), i))]]]]
FixScen(u_) == ManyScen(N(2, 10)) \o PowScen(N(30, 200), 12) \o WindowScen(0) \o ThreadScen(N(12, 80))

\* elements made, copied, replaced and dropped; and held by keys, ciphertexts, proofs and precomputed values
WipeP(s) == IMod(BNum(PickBytes(s, 520)), P)     \* values whose words occur nowhere else
WipeQ(s) == UniQ(s)
WipeOp(s) ==
    LET d == PickOf(S(s, "d"), <<"p", "q">>) names == IF d = "p" THEN RegNames ELSE QNames
        r1 == PickOf(S(s, "r1"), names) r2 == PickOf(S(s, "r2"), names) k == Pick(S(s, "k"), 10) IN
    CASE k \in 0..2 -> <<[op |-> "w_new", d |-> d, n |-> r1, x |-> IF d = "p" THEN WipeP(S(s, "x")) ELSE WipeQ(S(s, "x"))]>>
      [] k \in 3..6 -> <<[op |-> "w_copy", d |-> d, to |-> r1, from |-> r2, via |-> PickOf(S(s, "via"), <<"ctor", "clone", "assign">>)]>>
      [] k = 7 -> <<[op |-> "w_drop", d |-> d, n |-> r1], [op |-> "w_new", d |-> d, n |-> r1, x |-> IF d = "p" THEN WipeP(S(s, "x")) ELSE WipeQ(S(s, "x"))]>>
      [] k \in 8..9 -> <<[op |-> "w_show", d |-> d, n |-> r1]>>
WipeScen(n, len) == [c \in 1..n |-> LET s == S(S(Seed, "wipe"), c) IN
    [id |-> S("wipe", c), ops |-> [i \in 1..5 |-> [op |-> "w_new", d |-> "p", n |-> RegNames[i], x |-> WipeP(S(s, S("p", i)))]]
        \o [i \in 1..3 |-> [op |-> "w_new", d |-> "q", n |-> QNames[i], x |-> WipeQ(S(s, S("q", i)))]]
        \o FlattenSeq([i \in 1..len |-> WipeOp(S(s, i))])
        \o [i \in 1..5 |-> [op |-> "w_drop", d |-> "p", n |-> RegNames[i]]] \o [i \in 1..3 |-> [op |-> "w_drop", d |-> "q", n |-> QNames[i]]]]]
Holders == << <<"key", 0, 1>>, <<"cipher", 2, 0>>, <<"hashed", 1, 0>>, <<"dj", 4, 5>>, <<"cc", 2, 2>>, <<"triple", 2, 1>>, <<"quad", 2, 2>> >>
HeldScen(n) == [c \in 1..n |-> LET s == S(S(Seed, "held"), c) IN
    [id |-> S("held", c), ops |-> [i \in DOMAIN Holders |-> LET h == Holders[i] IN [op |-> "w_held", kind |-> h[1], copies |-> Pick(S(S(s, "c"), i), 3),
        ps |-> [j \in 1..h[2] |-> WipeP(S(S(s, i), S("p", j)))], qs |-> [j \in 1..h[3] |-> WipeQ(S(S(s, i), S("q", j)))]]]]]

ASSUME Emit(CASE Want = "wipe" -> WipeScen(N(20, 200), 40) \o HeldScen(N(20, 200)) [] Want = "arith" -> ArithScen(0) [] Want = "rand" -> RandScen(N(4, 16)) [] Want = "conv" -> ConvScen(0) [] Want = "fix" -> FixScen(0) [] Want = "thr" -> ThreadScen(N(6, 30)))
=============================================================================
