----------------------------- MODULE Gen_Crypto -----------------------------
(* Scenarios for hashing, nonces, ElGamal, proofs and hashed ElGamal.       *)
EXTENDS GenBase, ChaumPedersen, HashedElGamal
Want == EnvText("eg.want", "hash")

Chunk(name, n, size, F(_)) == [c \in 1..n |-> [id |-> S(name, c), ops |-> [i \in 1..size |-> F(S(S(S(Seed, name), c), i))]]]
Texts == << "", "0", "null", "a", "A", "contest-1", "some text with spaces", "ÄÖü", "日本語", "00", "0A", "line\nbreak", "tab\t", "\"quoted\"",
            "{\"json\":1}", "-1", "18446744073709551616", "x,y", "'", "null ", " " >>
\* a text with a zero character in it cannot pass through the C interface
Nul == IF Div = 1 THEN BText("6100") \o "b" ELSE "ab"
Text(s) == IF Chance(S(s, "nul"), 1, 30) THEN Nul ELSE IF Chance(S(s, "t"), 1, 3) THEN PickBytes(s, 1 + Pick(S(s, "n"), 40)) ELSE PickOf(s, Texts)
U64s == << "0", "1", "2", "9", "10", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
           "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615" >>
U64(s) == IF Chance(S(s, "u"), 1, 2) THEN PickOf(s, U64s) ELSE DStr(Pick(s, 2000000000))
Ways == << "ptr", "ref", "cref" >>
Built == << "", "hex", "copy", "assign", "clone", "calc", "cached" >>
ByteStr(s) == LET n == PickOf(S(s, "n"), <<0, 1, 2, 3, 31, 32, 33, 64, 512, 4100>>) z == Pick(S(s, "z"), 3) IN
    IF n = 0 THEN "" ELSE BZero(IF z < n THEN z ELSE n) \o PickBytes(s, IF z < n THEN n - z ELSE 0)
Cipher(s) == <<RndP(S(s, "pad")), RndP(S(s, "data"))>>
Kinds == << "null", "u64", "str", "bytes", "p", "q", "h", "vu64", "vstr", "vp", "vq", "vh", "q", "u64", "str" >>
Item(s) ==
    LET t == PickOf(S(s, "kind"), Kinds) w == PickOf(S(s, "way"), Ways) b == PickOf(S(s, "built"), Built)
        n == IF Chance(S(s, "many"), 1, 25) THEN 40 ELSE Pick(S(s, "len"), 4) IN
    CASE t = "null" -> [t |-> t]
      [] t = "u64" -> [t |-> t, v |-> U64(s)]
      [] t = "str" -> [t |-> t, v |-> Text(s)]
      [] t = "bytes" -> [t |-> t, v |-> ByteStr(s)]
      [] t = "p" -> [t |-> t, v |-> RndP(s), w |-> w, b |-> b]
      [] t = "q" -> [t |-> t, v |-> RndQ(s), w |-> w, b |-> b]
      [] t = "h" -> [t |-> t, v |-> Cipher(s), w |-> w]
      [] t = "vu64" -> [t |-> t, v |-> [i \in 1..n |-> U64(S(s, i))]]
      [] t = "vstr" -> [t |-> t, v |-> [i \in 1..n |-> Text(S(s, i))]]
      [] t = "vp" -> [t |-> t, v |-> [i \in 1..n |-> RndP(S(s, i))], w |-> w, b |-> b]
      [] t = "vq" -> [t |-> t, v |-> [i \in 1..n |-> RndQ(S(s, i))], w |-> w, b |-> b]
      [] t = "vh" -> [t |-> t, v |-> [i \in 1..n |-> Cipher(S(s, i))], w |-> w]
HashOp(s) == [op |-> "hash", items |-> [i \in 1..PickOf(S(s, "cnt"), <<0, 1, 1, 2, 2, 3, 3, 4, 4, 7, 7, 33>>) |-> Item(S(s, i))]]
\* every kind and way of passing, alone and in a pair, exhaustively
OneOf(t, w, b, s) ==
    CASE t \in {"p"} -> [t |-> t, v |-> RndP(s), w |-> w, b |-> b]
      [] t \in {"q"} -> [t |-> t, v |-> RndQ(s), w |-> w, b |-> b]
      [] t = "vp" -> [t |-> t, v |-> <<RndP(s), RndP(S(s, 2))>>, w |-> w, b |-> b]
      [] t = "vq" -> [t |-> t, v |-> <<RndQ(s), RndQ(S(s, 2))>>, w |-> w, b |-> b]
      [] t = "h" -> [t |-> t, v |-> Cipher(s), w |-> w]
      [] t = "vh" -> [t |-> t, v |-> <<Cipher(s)>>, w |-> w]
      [] t = "vp0" -> [t |-> "vp", v |-> <<>>, w |-> w]
      [] t = "vq0" -> [t |-> "vq", v |-> <<>>, w |-> w]
      [] t = "vh0" -> [t |-> "vh", v |-> <<>>, w |-> w]
AllWays(u_) == [k \in 1..(9 * 3 * 7) |->
    LET i == k - 1
        t == <<"p", "q", "vp", "vq", "h", "vh", "vp0", "vq0", "vh0">>[1 + (i % 9)]
        w == Ways[1 + ((i \div 9) % 3)]  b == Built[1 + ((i \div 27) % 7)]
        s == S(S(Seed, "allways"), k) IN
    [op |-> "hash", items |-> IF Chance(S(s, "pair"), 1, 2) THEN <<OneOf(t, w, b, s)>> ELSE <<[t |-> "u64", v |-> "7"], OneOf(t, w, b, s), [t |-> "null"]>>]]
BigHash(s) == [op |-> "hash", items |-> <<[t |-> "str", v |-> TextRepeat(PickOf(s, <<"a", "xyz", "é">>), PickOf(S(s, "n"), <<53, 54, 55, 56, 61, 62, 63, 64, 65, 119, 120, 127, 128, 1000, 5000, 70000>>))]>>]
\* long lists: more items than any counter of one byte holds
ManyHash(s) == LET n == PickOf(S(s, "n"), <<127, 255, 256, 257, 300>>) k == Pick(S(s, "k"), 6) IN
    [op |-> "hash", items |->
        CASE k = 0 -> [i \in 1..n |-> [t |-> "u64", v |-> DStr(i)]]
          [] k = 1 -> [i \in 1..n |-> Item(S(s, i))]
          [] k = 2 -> <<[t |-> "vu64", v |-> [i \in 1..n |-> DStr(i)]], [t |-> "null"]>>
          [] k = 3 -> <<[t |-> "vq", v |-> [i \in 1..n |-> IF i % 3 = 0 THEN DHex(DStr(i)) ELSE UniQ(S(s, i))], w |-> "ref", b |-> ""]>>
          [] k = 4 -> <<[t |-> "vstr", v |-> [i \in 1..n |-> Text(S(s, i))]]>>
          [] OTHER -> <<[t |-> "vp", v |-> [i \in 1..n |-> DHex(DStr(i))], w |-> "ptr", b |-> ""]>>]
HashScen(u_) == Chunk("hash", N(40, 400), 12, HashOp) \o <<[id |-> "allways", ops |-> AllWays(0)]>>
            \o Chunk("bighash", N(4, 20), 8, BigHash) \o Chunk("manyhash", N(1, 6), 8, ManyHash)

\* --- nonce sequences
NHdr(s) == CASE Pick(S(s, "hk"), 4) = 0 -> <<>>
             [] Pick(S(s, "hk"), 4) = 1 -> <<[t |-> "str", v |-> Text(s)]>>
             [] Pick(S(s, "hk"), 4) = 2 -> <<[t |-> "q", v |-> RndQ(s)]>>
             [] OTHER -> <<[t |-> "p", v |-> RndP(s)]>>
NName(s) == PickOf(S(s, "nm"), <<"x", "y">>)
NIdx(s) == IF Chance(S(s, "small"), 1, 2) THEN DStr(Pick(s, 5)) ELSE PickOf(s, <<"1", "4294967295", "4294967296", "9223372036854775807", "1000000">>)
NOp(s) == LET k == Pick(S(s, "k"), 9) n == NName(s) IN
    CASE k = 0 -> [op |-> "n_new", n |-> n, seed |-> RndQ(s), hdr |-> NHdr(s)]
      [] k \in {1, 2} -> [op |-> "n_get", n |-> n, i |-> NIdx(s)]
      [] k = 3 -> [op |-> "n_hdr", n |-> n, i |-> NIdx(s), h |-> Text(s)]
      [] k \in {4, 5, 6} -> [op |-> "n_next", n |-> n]
      [] OTHER -> [op |-> "n_list", n |-> n, i |-> NIdx(s), k |-> IF Chance(S(s, "many"), 1, 8) THEN PickOf(S(s, "cm"), <<70, 130, 257, 1030>>) ELSE Pick(S(s, "cnt"), 5)]
NonceScen(u_) == [c \in 1..N(40, 400) |-> LET s == S(S(Seed, "nonce"), c) IN
    [id |-> S("nonce", c), ops |-> << [op |-> "n_new", n |-> "x", seed |-> RndQ(S(s, "x")), hdr |-> NHdr(S(s, "x"))],
                                     [op |-> "n_new", n |-> "y", seed |-> RndQ(S(s, "y")), hdr |-> NHdr(S(s, "y"))] >>
                                   \o [i \in 1..14 |-> NOp(S(s, i))]]]

\* --- ElGamal
SecretQ(s) == IF Chance(S(s, "sp"), 1, 4) THEN PickOf(s, <<"02", "03", ISub(Q, "01"), ISub(Q, "02")>>) ELSE UniQ(s)
NonceQ(s) == IF Chance(S(s, "sp"), 1, 4) THEN PickOf(s, <<"01", "02", ISub(Q, "01"), TwoPow(255)>>) ELSE UniQ(s)
KeyOp(s) == [op |-> "keypair", s |-> IF Chance(S(s, "bad"), 1, 3) THEN PickOf(s, <<"00", "01", "02", "03", ISub(Q, "01")>>) ELSE UniQ(s), fixed |-> Chance(S(s, "f"), 1, 2)]
Msg(s) == IF Chance(S(s, "m"), 3, 4) THEN PickOf(s, <<"0", "1">>) ELSE U64(s)
EgGroup(s) ==
    LET sk == SecretQ(S(s, "sk")) k == PublicKey(sk) r == NonceQ(S(s, "r")) m == Msg(S(s, "m")) c == Enc(m, r, k)
        m2 == PickOf(S(s, "m2"), <<"0", "1">>) r2 == NonceQ(S(s, "r2")) c2 == Enc(m2, r2, k)
        m3 == PickOf(S(s, "m3"), <<"0", "1">>) r3 == NonceQ(S(s, "r3")) c3 == Enc(m3, r3, k)
        all == <<c, c2, c3>> IN
    << KeyOp(S(s, "kp")),
       [op |-> "eg_encrypt", m |-> m, n |-> IF Chance(S(s, "zn"), 1, 8) THEN Zero ELSE r, k |-> k, fixed |-> Chance(S(s, "f"), 1, 2)],
       [op |-> "eg_pre", m |-> m, g |-> PPow(G, r), kr |-> PPow(k, r)],
       [op |-> "eg_decrypt", c |-> c, s |-> sk],
       [op |-> "eg_decrypt", c |-> c2, s |-> PickOf(S(s, "other"), <<QAdd(sk, One), UniQ(S(s, "o")), Two, sk>>)],
       [op |-> "eg_add", cs |-> SubSeq(Shuffle(s, all), 1, Pick(S(s, "cnt"), 4))],
       [op |-> "eg_decrypt", c |-> Combine(<<c2, c3>>), s |-> sk],
       [op |-> "eg_add", cs |-> [i \in 1..(IF Chance(S(s, "lots"), 1, 10) THEN PickOf(S(s, "nlots"), <<70, 255, 300>>) ELSE Pick(S(s, "many"), 9)) |-> all[1 + (i % 3)]]],
       [op |-> "eg_copy", c |-> c, d |-> PickOf(S(s, "d"), <<c, <<c[1], c2[2]>>, <<c2[1], c[2]>>, c2>>)] >>
EgScen(u_) == [c \in 1..N(40, 400) |-> [id |-> S("elgamal", c), ops |-> EgGroup(S(S(Seed, "eg"), c))]]

\* --- proofs made by the library
PmGroup(s) ==
    LET sk == SecretQ(S(s, "sk")) k == PublicKey(sk) r == NonceQ(S(s, "r")) m == PickOf(S(s, "m"), <<"0", "1">>)
        h == RndQ(S(s, "h")) seed == RndQ(S(s, "seed")) f == Chance(S(s, "f"), 1, 2)
        bad == PickOf(S(s, "bad"), <<"2", "3", "18446744073709551615">>)
        L == IF Chance(S(s, "L"), 1, 2) THEN DStr(Pick(S(s, "l"), 6)) ELSE PickOf(S(s, "l"), <<"100", "4294967296", "18446744073709551615">>)
        rr == NonceQ(S(s, "rr")) IN
    << [op |-> "dj_make", mode |-> "seed", c |-> Enc(m, r, k), n |-> r, k |-> k, h |-> h, seed |-> seed, m |-> m, fixed |-> f],
       [op |-> "dj_make", mode |-> "rand", c |-> Enc(m, r, k), n |-> r, k |-> k, h |-> h, m |-> m, fixed |-> f],
       [op |-> "dj_make", mode |-> "pre", c |-> Enc(m, r, k), n |-> r, k |-> k, h |-> h, m |-> m, fixed |-> f,
        u |-> RndQ(S(s, "u")), v |-> RndQ(S(s, "v")), w |-> RndQ(S(s, "w"))],
       [op |-> "dj_make", mode |-> PickOf(S(s, "md"), <<"seed", "rand", "pre">>), c |-> Enc(bad, r, k), n |-> r, k |-> k, h |-> h, seed |-> seed,
        m |-> bad, fixed |-> f, u |-> One, v |-> Two, w |-> Two],
       [op |-> "dj_make", mode |-> "pre", c |-> Enc(m, r, k), n |-> r, k |-> k, h |-> h, m |-> m, fixed |-> f,
        u |-> PickOf(S(s, "u0"), <<Zero, One>>), v |-> PickOf(S(s, "v0"), <<Zero, One>>), w |-> PickOf(S(s, "w0"), <<Zero, Pred(Q)>>)],
       \* a statement that is false: the verdict must be "invalid"
       [op |-> "dj_make", mode |-> PickOf(S(s, "md2"), <<"seed", "rand">>), c |-> Enc(PickOf(S(s, "fm"), <<"2", IF m = "0" THEN "1" ELSE "0">>), r, k),
        n |-> r, k |-> k, h |-> h, seed |-> seed, m |-> m, fixed |-> f],
       [op |-> "cc_make", c |-> Enc(L, rr, k), n |-> rr, k |-> k, h |-> h, seed |-> seed, l |-> L, fixed |-> f],
       [op |-> "cc_make", c |-> Enc(DAdd(DStr(Pick(S(s, "l"), 6)), "1"), rr, k), n |-> rr, k |-> k, h |-> h, seed |-> seed, l |-> DStr(Pick(S(s, "l"), 6)), fixed |-> f] >>
PmScen(u_) == [c \in 1..N(24, 300) |-> [id |-> S("make", c), ops |-> PmGroup(S(S(Seed, "pm"), c))]]

\* --- verdicts on honest, altered and crafted proofs
Even(x) == IMod(x, "02") = Zero
Neg(x) == ISub(P, x)                                        \* -x: outside the subgroup
\* commitments made for c, optionally multiplied by g (dev: which one), hashed with the shown ciphertext cs
DjCraft(c, shown, r, k, hdr, m, u, cs, vs, dev) ==
    LET p == DjMake(c, r, k, hdr, m, u, cs, vs)
        D(i, x) == IF dev = i THEN PMul(x, G) ELSE IF dev = i + 4 THEN IAdd(x, P) ELSE x      \* + P fits only for small x
        a0 == D(1, p.a0) b0 == D(2, p.b0) a1 == D(3, p.a1) b1 == D(4, p.b1)
        ch == H(<<hdr, shown[1], shown[2], a0, b0, a1, b1>>)
        cr == QSub(ch, cs) vr == QAdd(u, QMul(cr, r)) IN
    [a0 |-> a0, b0 |-> b0, a1 |-> a1, b1 |-> b1, c |-> ch, c0 |-> IF m = 0 THEN cr ELSE cs, c1 |-> IF m = 0 THEN cs ELSE cr,
     v0 |-> IF m = 0 THEN vr ELSE vs, v1 |-> IF m = 0 THEN vs ELSE vr]
RECURSIVE EvenCraft(_, _, _, _, _, _, _, _)
\* search for a commitment whose real challenge is even
EvenCraft(s, c, shown, r, k, hdr, m, n) ==
    LET cs == LET x == UniQ(S(s, "cs")) IN IF Even(x) THEN x ELSE IF x = Pred(Q) THEN Two ELSE IAdd(x, One)
        p == DjCraft(c, shown, r, k, hdr, m, UniQ(S(S(s, "u"), n)), cs, UniQ(S(s, "vs")), 0) IN
    IF (Even(p.c0) /\ Even(p.c1)) \/ n > 40 THEN p ELSE EvenCraft(s, c, shown, r, k, hdr, m, n + 1)
RECURSIVE EvenConst(_, _, _, _, _, _, _, _)
EvenConst(s, c, shown, r, k, hdr, L, n) ==
    LET u == UniQ(S(S(s, "u"), n)) a == PPow(G, u) b == PPow(k, u) ch == H(<<hdr, shown[1], shown[2], a, b>>) IN
    IF Even(ch) \/ n > 40 THEN [a |-> a, b |-> b, c |-> ch, v |-> QAdd(u, QMul(ch, r)), k |-> L]
    ELSE EvenConst(s, c, shown, r, k, hdr, L, n + 1)
\* under a key outside the subgroup: search for a proof of which exactly one commitment is outside it and all equations hold
RECURSIVE OddCraft(_, _, _, _, _, _, _, _)
OddCraft(s, r, k, hdr, m, oddReal, oddSim, n) ==
    LET c == Enc(DStr(m), r, k) fix(x, odd) == IF Even(x) # odd THEN x ELSE IF x = Pred(Q) THEN QSub(x, One) ELSE IAdd(x, One)
        p == DjMake(c, r, Neg(k), hdr, m, fix(UniQ(S(S(s, "u"), n)), oddReal), UniQ(S(s, "cs")), fix(UniQ(S(s, "vs")), oddSim)) IN
    IF DjEqs(c, Neg(k), hdr, p) \/ n > 40 THEN p ELSE OddCraft(s, r, k, hdr, m, oddReal, oddSim, n + 1)
RECURSIVE OddConst(_, _, _, _, _, _)
OddConst(s, r, k, hdr, L, n) ==
    LET c == Enc(L, r, k) x == UniQ(S(S(s, "u"), n)) p == CcMake(c, r, Neg(k), hdr, IF Even(x) THEN QAdd(x, One) ELSE x, L) IN
    IF PMul(PPow(G, QMul(p.c, DHex(L))), PPow(Neg(k), p.v)) = PMul(p.b, PPow(c[2], p.c)) \/ n > 40 THEN p ELSE OddConst(s, r, k, hdr, L, n + 1)
DjFields == << "a0", "b0", "a1", "b1", "c0", "c1", "c", "v0", "v1" >>
NewP(s, x) == PickOf(s, << PMul(x, G), UniRes(s), Neg(x), Zero, One, Pred(P), P, PInv(x), MaxP >>)
NewQ(s, x) == PickOf(s, << QAdd(x, One), QSub(x, One), UniQ(s), Zero, One, Pred(Q), QSub(Zero, x), IF ILt(x, "BD") THEN IAdd(x, Q) ELSE QAdd(x, x), MaxQ >>)
Small(s) == PickOf(s, <<"00", "01", "05", "BC", "50">>)
DjCase(s, kind) ==
    LET sk == SecretQ(S(s, "sk")) k == PublicKey(sk) r == NonceQ(S(s, "r")) m == Pick(S(s, "m"), 2) h == UniQ(S(s, "h"))
        c == Enc(DStr(m), r, k) u == UniQ(S(s, "u")) cs == UniQ(S(s, "cs")) vs == UniQ(S(s, "vs"))
        p == DjMake(c, r, k, h, m, u, cs, vs)
        E(cc2, kk, hh, pp) == [op |-> "dj_valid", c |-> cc2, k |-> kk, h |-> hh, p |-> pp, fixed |-> Chance(S(s, "f"), 1, 2)]
        x == UniRes(S(s, "x"))
    IN CASE kind = 0 -> E(c, k, h, p)
         [] kind \in 1..9 -> LET fld == DjFields[kind] IN
               E(c, k, h, [p EXCEPT ![fld] = IF kind <= 4 THEN NewP(S(s, "n"), @) ELSE NewQ(S(s, "n"), @)])
         [] kind = 10 -> E(<<NewP(S(s, "n"), c[1]), c[2]>>, k, h, p)
         [] kind = 11 -> E(<<c[1], NewP(S(s, "n"), c[2])>>, k, h, p)
         [] kind = 12 -> E(c, PickOf(S(s, "k2"), <<x, PMul(k, G), G, Neg(k)>>), h, p)
         [] kind = 13 -> E(c, k, NewQ(S(s, "n"), h), p)
         [] kind \in 14..17 -> E(c, k, h, DjCraft(c, c, r, k, h, m, u, cs, vs, kind - 13))          \* exactly one equation fails
         [] kind = 18 -> E(c, k, h, LET w == DjMake(c, r, k, h, m, u, Small(S(s, "c")), vs) IN       \* challenge out of range
                          IF m = 0 THEN [w EXCEPT !.c1 = IAdd(@, Q)] ELSE [w EXCEPT !.c0 = IAdd(@, Q)])
         [] kind = 19 -> E(c, k, h, LET w == DjMake(c, r, k, h, m, u, cs, Small(S(s, "v"))) IN       \* response out of range
                          IF m = 0 THEN [w EXCEPT !.v1 = IAdd(@, Q)] ELSE [w EXCEPT !.v0 = IAdd(@, Q)])
         [] kind = 20 -> E(<<Neg(c[1]), c[2]>>, k, h, EvenCraft(s, c, <<Neg(c[1]), c[2]>>, r, k, h, m, 1))   \* pad outside the subgroup
         [] kind = 21 -> E(<<c[1], Neg(c[2])>>, k, h, EvenCraft(s, c, <<c[1], Neg(c[2])>>, r, k, h, m, 1))
         [] kind = 22 -> E(c, k, h, LET c0 == UniQ(S(s, "c0")) c1 == cs v0 == UniQ(S(s, "v0")) v1 == vs              \* both branches simulated
                                        a0 == PMul(PPow(G, v0), PPow(c[1], QSub(Zero, c0))) a1 == PMul(PPow(G, v1), PPow(c[1], QSub(Zero, c1)))
                                        b0 == PMul(PPow(k, v0), PPow(c[2], QSub(Zero, c0)))
                                        b1 == PMul(PMul(PPow(k, v1), PPow(G, c1)), PPow(c[2], QSub(Zero, c1)))
                                        hash == H(<<h, c[1], c[2], a0, b0, a1, b1>>) IN
                          [a0 |-> a0, b0 |-> b0, a1 |-> a1, b1 |-> b1, c0 |-> c0, c1 |-> c1, v0 |-> v0, v1 |-> v1,
                           c |-> IF Chance(S(s, "which"), 1, 2) THEN QAdd(c0, c1) ELSE hash])
         [] kind = 23 -> E(c, k, h, DjMake(c, r, k, h, m, u, Zero, vs))                               \* zero challenge: valid
         [] kind = 24 -> E(c, k, h, DjMake(c, r, k, h, m, u, cs, Zero))                               \* zero response: valid
         [] kind = 25 -> LET c2 == Enc("2", r, k) IN E(c2, k, h, DjMake(c2, r, k, h, m, u, cs, vs))   \* encrypts 2
         [] kind = 26 -> E(c, k, h, [p EXCEPT !.a0 = p.a1, !.a1 = p.a0, !.b0 = p.b1, !.b1 = p.b0])
         [] kind = 27 -> E(<<c[2], c[1]>>, k, h, p)
         \* malleability: the proof of c shown for the re-encryption or the sum
         [] kind = 28 -> E(Combine(<<c, Enc("0", One, k)>>), k, h, p)
         \* a commitment that is one only modulo p
         [] kind \in 29..32 -> LET m2 == IF kind <= 30 THEN 0 ELSE 1 c2 == Enc(DStr(m2), r, k) IN E(c2, k, h, DjCraft(c2, c2, r, k, h, m2, Zero, cs, vs, kind - 24))
         \* the response of the real branch out of range, with a nonce of zero
         [] kind \in 33..34 -> LET m2 == kind - 33 c2 == Enc(DStr(m2), Zero, k) w == DjMake(c2, Zero, k, h, m2, Small(S(s, "v")), cs, vs) IN
                               E(c2, k, h, IF m2 = 0 THEN [w EXCEPT !.v0 = IAdd(@, Q)] ELSE [w EXCEPT !.v1 = IAdd(@, Q)])
         [] kind \in 35..38 -> LET m2 == kind % 2 r2 == IF Even(r) THEN r ELSE QSub(r, One) IN
                               E(Enc(DStr(m2), r2, k), Neg(k), h, OddCraft(s, r2, k, h, m2, kind <= 36, kind > 36, 1))
         \* the same without a commitment outside the subgroup, and a valid proof with a nonce of zero
         [] kind = 39 -> LET r2 == IF Even(r) THEN r ELSE QSub(r, One) IN E(Enc(DStr(m), r2, k), Neg(k), h, OddCraft(s, r2, k, h, m, FALSE, FALSE, 1))
         [] kind = 40 -> LET c2 == Enc(DStr(m), Zero, k) IN E(c2, k, h, DjMake(c2, Zero, k, h, m, Small(S(s, "v")), cs, vs))
         [] OTHER -> E(c, k, h, DjMake(c, r, k, h, 1 - m, u, cs, vs))                                 \* proof of the other vote
NDj == 42
CcCase(s, kind) ==
    LET sk == SecretQ(S(s, "sk")) k == PublicKey(sk) r == NonceQ(S(s, "r")) h == UniQ(S(s, "h")) L == DStr(Pick(S(s, "L"), 5))
        c == Enc(L, r, k) u == UniQ(S(s, "u")) p == CcMake(c, r, k, h, u, L)
        E(cc2, kk, hh, pp) == [op |-> "cc_valid", c |-> cc2, k |-> kk, h |-> hh, p |-> pp, fixed |-> Chance(S(s, "f"), 1, 2)]
        fin(a, b) == LET ch == H(<<h, c[1], c[2], a, b>>) IN [a |-> a, b |-> b, c |-> ch, v |-> QAdd(u, QMul(ch, r)), k |-> L]
    IN CASE kind = 0 -> E(c, k, h, p)
         [] kind = 1 -> E(c, k, h, [p EXCEPT !.a = NewP(S(s, "n"), @)])
         [] kind = 2 -> E(c, k, h, [p EXCEPT !.b = NewP(S(s, "n"), @)])
         [] kind = 3 -> E(c, k, h, [p EXCEPT !.c = NewQ(S(s, "n"), @)])
         [] kind = 4 -> E(c, k, h, [p EXCEPT !.v = NewQ(S(s, "n"), @)])
         [] kind = 5 -> E(c, k, h, [p EXCEPT !.k = PickOf(s, <<DAdd(@, "1"), "0", "1", "18446744073709551615">>)])
         [] kind = 6 -> E(<<NewP(S(s, "n"), c[1]), c[2]>>, k, h, p)
         [] kind = 7 -> E(<<c[1], NewP(S(s, "n"), c[2])>>, k, h, p)
         [] kind = 8 -> E(c, PMul(k, G), h, p)
         [] kind = 9 -> E(c, k, NewQ(S(s, "n"), h), p)
         [] kind = 10 -> E(c, k, h, fin(PMul(PPow(G, u), G), PPow(k, u)))
         [] kind = 11 -> E(c, k, h, fin(PPow(G, u), PMul(PPow(k, u), G)))
         [] kind = 12 -> E(c, k, h, LET ch == UniQ(S(s, "ch")) v == UniQ(S(s, "v")) ng == QSub(Zero, ch) IN
                [a |-> PMul(PPow(G, v), PPow(c[1], ng)), b |-> PMul(PMul(PPow(G, QMul(ch, DHex(L))), PPow(k, v)), PPow(c[2], ng)), c |-> ch, v |-> v, k |-> L])
         [] kind = 13 -> E(<<Neg(c[1]), c[2]>>, k, h, EvenConst(s, c, <<Neg(c[1]), c[2]>>, r, k, h, L, 1))
         [] kind = 14 -> E(<<c[1], Neg(c[2])>>, k, h, EvenConst(s, c, <<c[1], Neg(c[2])>>, r, k, h, L, 1))
         [] kind = 15 -> LET c2 == Enc(DAdd(L, "1"), r, k) IN E(c2, k, h, CcMake(c2, r, k, h, u, L))
         [] kind \in 16..17 -> LET a == IF kind = 16 THEN IAdd(P, One) ELSE One b == IF kind = 17 THEN IAdd(P, One) ELSE One ch == H(<<h, c[1], c[2], a, b>>) IN
                               E(c, k, h, [a |-> a, b |-> b, c |-> ch, v |-> QMul(ch, r), k |-> L])
         [] kind = 18 -> LET c2 == Enc(L, Zero, k) IN E(c2, k, h, [CcMake(c2, Zero, k, h, Small(S(s, "v")), L) EXCEPT !.v = IAdd(@, Q)])
         [] kind = 19 -> LET c2 == Enc(L, Zero, k) IN E(c2, k, h, CcMake(c2, Zero, k, h, Small(S(s, "v")), L))
         [] kind = 20 -> LET r2 == IF Even(r) THEN r ELSE QSub(r, One) IN E(Enc(L, r2, k), Neg(k), h, OddConst(s, r2, k, h, L, 1))
         [] OTHER -> LET BL == PickOf(s, <<"18446744073709551615", "4294967296", "65537">>) c2 == Enc(BL, r, k) IN E(c2, k, h, CcMake(c2, r, k, h, u, BL))
NCc == 22
PcScen(u_) == [c \in 1..N(3, 30) * NDj |-> [id |-> S("dj", c), ops |-> <<DjCase(S(S(Seed, "dj"), c), (c - 1) % NDj)>>]]
          \o [c \in 1..N(3, 30) * NCc |-> [id |-> S("cc", c), ops |-> <<CcCase(S(S(Seed, "cc"), c), (c - 1) % NCc)>>]]

\* --- hashed ElGamal
FlipAt(b, i) == LET x == BSub(b, i, i) IN BSub(b, 1, i - 1) \o BXor(x, PickOf(b \o ToString(i), <<"01", "80", "10", "FF">>)) \o BSub(b, i + 1, BLen(b))
HeLens == << 0, 1, 2, 30, 31, 32, 33, 62, 64, 96, 256, 480, 500, 508, 509, 510, 511, 512, 513, 600, 1024 >>
HeMsg(s, n) == LET k == Pick(S(s, "fill"), 4) IN
    CASE k = 0 -> BZero(n) [] k = 1 -> (IF n = 0 THEN "" ELSE PickBytes(s, n - 1) \o "00") [] OTHER -> PickBytes(s, n)
HeGroupOf(s, len, maxes) ==
    LET sk == SecretQ(S(s, "sk")) k == PublicKey(sk) r == NonceQ(S(s, "r")) seed == RndQ(S(s, "seed"))
        msg == HeMsg(s, len) max == PickOf(S(s, "max"), maxes) trunc == Chance(S(s, "tr"), 1, 2)
        ok == ~HeRefused(msg, max, trunc)
        x == HeEncrypt(msg, r, k, seed, max)
        D(y, ss, sd, lk) == [op |-> "he_decrypt", x |-> y, s |-> ss, seed |-> sd, look |-> lk]
        n == BLen(x.data)
        bad == IF n = 0 THEN <<>> ELSE
          << D([x EXCEPT !.data = FlipAt(@, 1 + Pick(S(s, "f1"), n))], sk, seed, max # 0),
             D([x EXCEPT !.data = FlipAt(@, PickOf(S(s, "f2"), <<1, n>>))], sk, seed, max # 0),
             D([x EXCEPT !.mac = FlipAt(@, 1 + Pick(S(s, "f3"), 32))], sk, seed, max # 0),
             D([x EXCEPT !.mac = BSub(@, 1, PickOf(S(s, "f4"), <<0, 16, 31>>))], sk, seed, max # 0),
             D([x EXCEPT !.mac = @ \o PickOf(S(s, "f5"), <<"00", "A5", x.mac>>)], sk, seed, max # 0),
             D([x EXCEPT !.mac = BSub(@, 2, 32)], sk, seed, max # 0),
             D([x EXCEPT !.pad = PMul(@, G)], sk, seed, max # 0),
             D([x EXCEPT !.pad = PInv(@)], sk, seed, max # 0),
             D(x, QAdd(sk, One), seed, max # 0),
             D(x, sk, QAdd(seed, One), max # 0),
             D(x, sk, seed, max = 0),
             D([x EXCEPT !.data = BSub(@, 1, n - PickOf(S(s, "cut"), <<1, 32>>))], sk, seed, max # 0),
             D([x EXCEPT !.data = @ \o BZero(PickOf(S(s, "ext"), <<1, 32>>))], sk, seed, max # 0),
             [op |-> "he_cmp", x |-> x, y |-> PickOf(S(s, "cmp"), <<x, [x EXCEPT !.mac = FlipAt(@, 32)], [x EXCEPT !.data = FlipAt(@, 1)], [x EXCEPT !.pad = PMul(@, G)]>>)] >>
    IN << [op |-> "he_encrypt", msg |-> msg, n |-> r, k |-> k, seed |-> seed, max |-> max, trunc |-> trunc, fixed |-> Chance(S(s, "fx"), 1, 2)] >>
       \o (IF ok THEN <<D(x, sk, seed, max # 0)>> \o bad ELSE <<>>)
HeGroup(s, len) == HeGroupOf(s, len, <<0, 510, 510>>)
\* ciphertexts authenticated correctly but with bad padding, or with leading zero bytes
HeForged(s) ==
    LET sk == SecretQ(S(s, "sk")) k == PublicKey(sk) r == NonceQ(S(s, "r")) seed == RndQ(S(s, "seed"))
        n == PickOf(S(s, "n"), <<32, 64, 512>>) pl == PickOf(S(s, "pl"), <<0, 1, n - 3, n - 2, n - 1, n, 65535>>)
        body == IF Chance(S(s, "z"), 1, 2) THEN BZero(n - 2) ELSE PickBytes(s, n - 2)
        x == HeUnder(PPow(G, r), PPow(k, r), BE16(pl) \o body, seed) IN
    << [op |-> "he_decrypt", x |-> x, s |-> sk, seed |-> seed, look |-> TRUE],
       [op |-> "he_decrypt", x |-> x, s |-> sk, seed |-> seed, look |-> FALSE] >>
HeScen(u_) == [c \in 1..N(2, 24) * Len(HeLens) |-> [id |-> S("hashed", c), ops |-> HeGroup(S(S(Seed, "he"), c), HeLens[1 + ((c - 1) % Len(HeLens))])]]
          \o [c \in 1..N(12, 150) |-> [id |-> S("forged", c), ops |-> HeForged(S(S(Seed, "hf"), c))]]
          \o [c \in 1..N(8, 100) |-> [id |-> S("anylen", c), ops |-> HeGroup(S(S(Seed, "hl"), c), Pick(S(S(Seed, "hlen"), c), 700))]]
          \* more blocks than one byte counts
          \o [c \in 1..N(4, 12) |-> [id |-> S("blocks", c), ops |-> HeGroupOf(S(S(Seed, "hb"), c), <<8160, 8192, 8224, 10240>>[1 + (c % 4)], <<0>>)]]

Scen(u_) == CASE Want = "hash" -> HashScen(0) [] Want = "nonce" -> NonceScen(0) [] Want = "elgamal" -> EgScen(0)
          [] Want = "make" -> PmScen(0) [] Want = "check" -> PcScen(0) [] Want = "hashed" -> HeScen(0)
ASSUME Emit(Scen(0))
=============================================================================
