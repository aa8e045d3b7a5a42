----------------------------- MODULE Gen_Ballot -----------------------------
(* Scenarios about whole ballots: encryption, chains, tampering, serialized  *)
(* and compact forms.                                                        *)
EXTENDS GenWire, Ballot, GenManifest
Want == EnvText("eg.want", "enc")
Fmts == <<"json", "bson", "msgpack">>
Chunks(name, ops, size) == [k \in 1..((Len(ops) + size - 1) \div size) |->
    [id |-> S(name, k), ops |-> SubSeq(ops, (k - 1) * size + 1, IF k * size > Len(ops) THEN Len(ops) ELSE k * size)]]

\* ---- elections
U64s == << "0", "1", "2", "3", "5", "255", "4294967295", "4294967296", "9223372036854775807" >>
U64(s) == IF Chance(S(s, "u"), 2, 3) THEN PickOf(s, U64s) ELSE DStr(Pick(s, 2000000000))
Setup(s, m) == LET sk == IF Chance(S(s, "sk"), 1, 8) THEN PickOf(S(s, "skv"), <<"02", "03", ISub(Q, "01")>>) ELSE UniQ(S(s, "skr")) IN
    [op |-> "b_setup", m |-> m, via |-> PickOf(S(s, "via"), <<"direct", "direct", "manifest", "json", "bson", "msgpack">>),
     n |-> PickOf(S(s, "n"), <<"1", "3", "5">>), k |-> PickOf(S(s, "k"), <<"1", "2">>), pk |-> PPow(G, sk), s |-> sk, com |-> RndQ(S(s, "com")),
     fixed |-> Chance(S(s, "fx"), 1, 3)]
Med(s, n) == [op |-> "b_med", n |-> n, dev |-> [dev |-> U64(S(s, "d")), ses |-> U64(S(s, "s")), launch |-> U64(S(s, "l")), loc |-> PickOf(S(s, "loc"), Words)]]
\* now and then one contest with many options and seats, or many contests
Elect(s) == LET k == Pick(S(s, "shape"), 16) IN
    IF k = 0 THEN MkManifest(s, 1, 0, 8 + Pick(S(s, "nk"), 4), 1, 1)
    ELSE IF k = 1 THEN MkManifest(s, 1, 1, 1 + Pick(S(s, "nk"), 2), 9 + Pick(S(s, "nc"), 3), 1)
    ELSE MkManifest(s, PickOf(S(s, "ng"), <<1, 1, 2, 3>>), Pick(S(s, "np"), 2), 1 + Pick(S(s, "nk"), 5), PickOf(S(s, "nc"), <<1, 1, 2, 2, 3>>), 1 + Pick(S(s, "ns"), 2))
\* one or two contests of two or three options
SmallElect(s) == MkManifest(s, 1, 0, 2 + Pick(S(s, "nk"), 2), 1 + Pick(S(s, "nc"), 2), 1)
\* a style with contests when there is one
StyleFor(s, m) == LET im == Internal(m) good == SelectSeq(m.styles, LAMBDA x : ContestsFor(im, x.id) # <<>>) IN
    IF good = <<>> \/ Chance(S(s, "anystyle"), 1, 12) THEN PickOf(S(s, "sty"), m.styles).id ELSE PickOf(S(s, "sty"), good).id

\* ---- ballots
LongTexts == << Rep("x", 30), Rep("0123456789", 46), Rep("0123456789", 47), Rep("ab ", 200), Rep("é", 300), Rep("\"", 260), Rep("日本", 120), Rep("y", 600) >>
WriteIn(s) == LET k == Pick(S(s, "wk"), 6) IN IF k < 3 THEN PickOf(S(s, "w"), Words) ELSE IF k = 3 THEN PickOf(S(s, "wl"), LongTexts)
              ELSE IF k = 4 THEN Rep("z", Between(S(s, "wn"), 455, 505)) ELSE "Ms. Write In"
\* see voteIn in the harness: 2^32, 2^32 + 1, 2^63, 2^64 - 1, 2^64 - 2
Huge == << 1000000001, 1000000002, 1000000003, 1000000004, 1000000005 >>
\* how the options of a contest are marked
VoteFor(s, kind, j, c) ==
    CASE kind \in {"under", "full"} -> IF j <= c.ne THEN (IF kind = "full" \/ Chance(S(s, j), 1, 2) THEN 1 ELSE 0) ELSE 0
      [] kind = "blank" -> 0
      [] kind = "all" -> 1
      [] kind = "over1" -> IF j <= c.ne + 1 THEN 1 ELSE 0
      [] kind = "two" -> IF j = 1 THEN 2 ELSE 0
      [] kind = "big" -> IF j = 1 THEN PickOf(S(s, "bv"), <<2, 3, 255, 256, 65536, 1000000, 1000000001, 1000000002>>) ELSE Pick(S(s, j), 2)
      [] kind = "huge" -> IF j = 1 THEN PickOf(S(s, "hv"), Huge) ELSE Pick(S(s, j), 2)
      \* numbers whose sum does not fit
      [] kind = "wrap" -> IF j <= 2 THEN PickOf(S(S(s, "wv"), j), <<1000000003, 1000000003, 1000000004, 1>>) ELSE 0
      [] OTHER -> Pick(S(s, j), 2)
\* what BSON can store: its numbers are signed
Storable == <<"under", "full", "full", "blank", "all", "over1", "rnd", "rnd", "two", "big">>
Kinds == Storable \o <<"huge", "wrap">>
Honest == <<"under", "full", "full", "blank", "all", "over1", "rnd", "rnd">>
Mark(s, d, v) == [id |-> d.id, vote |-> v, ph |-> Chance(S(s, "ph"), 1, 6), wi |-> IF Chance(S(s, "wi"), 1, 2) THEN WriteIn(S(s, "wt")) ELSE ""]
ContestMarks(s, c, kinds, tidy) ==
    LET kind == PickOf(S(s, "kind"), kinds) order == Shuffle(S(s, "sh"), c.sel)
        all == [j \in DOMAIN order |-> Mark(S(S(s, "m"), j), order[j], VoteFor(s, kind, j, c))]
        some == SelectSeq(all, LAMBDA x : x.vote # 0 \/ Chance(S(S(s, "keep"), x.id), 1, 2))
        listed == IF Chance(S(s, "allmentioned"), 1, 2) THEN all ELSE some
        dup == IF ~tidy /\ listed # <<>> /\ Chance(S(s, "dup"), 1, 6) THEN Append(listed, [listed[1] EXCEPT !.vote = 1 - IF @ > 1 THEN 1 ELSE @]) ELSE listed
        odd == IF ~tidy /\ Chance(S(s, "odd"), 1, 6) THEN Shuffle(S(s, "osh"), Append(dup, [id |-> PickOf(S(s, "oid"), <<"no-such-option", "", PlaceholderAt(c, 0).id>>), vote |-> 1, ph |-> FALSE, wi |-> "odd"])) ELSE dup
    IN odd
BallotR(s, m, style, kinds, tidy) ==
    LET im == Internal(m) xs == IF StyleRefused(im, style) THEN im.contests ELSE ContestsFor(im, style)
        cs == SelectSeq(Shuffle(S(s, "cs"), xs), LAMBDA x : tidy \/ Chance(S(S(s, "inc"), x.c.id), 5, 6))
        marks == [i \in DOMAIN cs |-> [id |-> cs[i].c.id, sel |-> ContestMarks(S(S(s, "cm"), i), cs[i].c, kinds, tidy)]]
        extra == IF ~tidy /\ Chance(S(s, "xc"), 1, 8) THEN <<[id |-> "no-such-contest", sel |-> <<[id |-> "x", vote |-> 1, ph |-> FALSE, wi |-> ""]>>]>> ELSE <<>>
        twice == IF ~tidy /\ marks # <<>> /\ Chance(S(s, "tc"), 1, 8) THEN <<[marks[1] EXCEPT !.sel = MapSeq(@, LAMBDA x : [x EXCEPT !.vote = 1])]>> ELSE <<>>
    IN [id |-> PickOf(S(s, "id"), <<"ballot-1", "b", "Stimmzettel Ü", "bal\"lot", "x", Rep("a long identifier ", 4 + Pick(S(s, "idn"), 20))>>) \o PickBytes(S(s, "idr"), 3), style |-> style, contests |-> marks \o extra \o twice]
AnyStyle(s, m) == IF Chance(S(s, "nostyle"), 1, 14) THEN PickOf(S(s, "nsv"), <<"no-such-style", "">>) ELSE StyleFor(s, m)
AnyBallot(s, m) == BallotR(s, m, AnyStyle(s, m), Kinds, FALSE)
\* every contest and option of the style mentioned once, in order
FullBallot(s, m) == LET style == StyleFor(S(s, "f"), m) b == BallotR(s, m, style, Honest, TRUE) im == Internal(m) IN
    [b EXCEPT !.contests = MapSeq(ContestsFor(im, style), LAMBDA x : [id |-> x.c.id, sel |-> MapSeq(MarksIn(x.c, b), LAMBDA k : [id |-> k.id, vote |-> k.vote, ph |-> FALSE, wi |-> k.wi])])]

Nonce(s) == IF Chance(S(s, "nn"), 1, 6) THEN PickOf(S(s, "sn"), <<"01", "02", ISub(Q, "01")>>) ELSE UniQ(S(s, "un"))
Ts(s) == PickOf(S(s, "ts"), <<"0", "1", "1640995200", "1640995200", "4294967296", "9223372036854775807">>)
EncOp(s, n, b, path, md) == [op |-> "b_enc", n |-> n, ballot |-> b, path |-> path, md |-> md, seed |-> UniQ(S(s, "seed")), ts |-> Ts(s), verify |-> Chance(S(s, "v"), 1, 4),
    nonce |-> IF path \in {"med", "medc"} \/ Chance(S(s, "fresh"), 1, 2) THEN <<>> ELSE <<Nonce(s)>>]
RndPath(s) == PickOf(S(s, "path"), <<"direct", "direct", "med", "compact", "medc">>)

\* ---- family enc: random elections and ballots on every path
EncScen(u_) == [c \in 1..N(70, 500) |-> LET s == S(S(Seed, "enc"), c) m == Elect(s) pre == Chance(S(s, "pre"), 1, 3)
        b1 == AnyBallot(S(s, "b1"), m) e1 == EncOp(S(s, "e1"), "x1", b1, "direct", "d") IN
    [id |-> S("enc", c), ops |-> << Setup(s, m), Med(s, "d") >> \o (IF pre THEN <<[op |-> "b_pre", size |-> PickOf(S(s, "ps"), <<1, 4, 20>>)]>> ELSE <<>>)
        \o << e1, EncOp(S(s, "e2"), "x2", AnyBallot(S(s, "b2"), m), RndPath(S(s, "p2")), "d"), EncOp(S(s, "e3"), "x3", AnyBallot(S(s, "b3"), m), RndPath(S(s, "p3")), "d"),
              \* the same again: a given nonce gives the same ballot, otherwise nothing is shared
              [e1 EXCEPT !.n = "x4"], EncOp(S(s, "e5"), "x5", b1, "med", "d") >>]]
\* ---- family plain: ordinary votes, so that most ballots are accepted; many options and write-ins
\* large: one contest of many options, a ballot of many contests
Fix(c) == [c EXCEPT !.ne = IF Len(c.sel) > 3 THEN 3 ELSE 1, !.va = IF Len(c.sel) > 3 THEN 3 ELSE 1, !.ctor = 0]
ManyOptions(s, n) == LET m == MkManifest(s, 1, 1, n, 1, 1) IN [m EXCEPT !.contests[1] = Fix([@ EXCEPT !.sel = [j \in 1..n |-> [id |-> "opt" \o ToString(j), cand |-> m.cands[j].id, seq |-> DStr(IF j % 2 = 0 THEN j + n ELSE j)]]])]
ManyContests(s, n) == LET m == MkManifest(s, 1, 1, 1, n, 1) IN [m EXCEPT !.contests = MapSeq(@, LAMBDA c : Fix(c))]
ManySeats(s, n, e) == LET m == ManyOptions(s, n) IN [m EXCEPT !.contests[1] = [@ EXCEPT !.ne = e, !.va = e, !.vv = 6]]
LargeScen(c) == LET s == S(S(Seed, "lg"), c) m == IF c = 1 THEN ManyOptions(s, N(36, 300)) ELSE IF c = 2 THEN ManyContests(s, N(34, 140)) ELSE ManySeats(s, N(15, 60), N(12, 50)) IN
    [id |-> S("large", c), ops |-> << Setup(s, m), Med(s, "d") >>
        \o [i \in 1..4 |-> [EncOp(S(s, i), S("x", i), BallotR(S(S(s, "b"), i), m, m.styles[1].id, <<<<"full">>, <<"all">>, <<"rnd">>, <<"under", "over1">>>>[i], TRUE), <<"direct", "med", "med", "direct">>[i], "d") EXCEPT !.verify = FALSE]]]
PlainScen(u_) == [c \in 1..3 |-> LargeScen(c)] \o [c \in 1..N(50, 400) |-> LET s == S(S(Seed, "pl"), c) m == Elect(s) IN
    [id |-> S("plain", c), ops |-> << Setup(s, m), Med(s, "d") >>
        \o [i \in 1..4 |-> EncOp(S(s, i), S("x", i), BallotR(S(S(s, "b"), i), m, StyleFor(S(S(s, "st"), i), m), Honest, Chance(S(S(s, "t"), i), 1, 2)), PickOf(S(S(s, "p"), i), <<"direct", "med">>), "d")]]]

\* ---- family parts: the entry points for single contests and selections
ContestCall(s, m) == LET im == Internal(m) x == PickOf(S(s, "x"), im.contests) k == Pick(S(s, "k"), 8)
        sel == ContestMarks(S(s, "m"), x.c, Kinds, TRUE) all == MapSeq(x.c.sel, LAMBDA d : Mark(S(s, d.id), d, 0))
        ct == CASE k = 0 -> [id |-> PickOf(S(s, "wid"), <<"other", "", x.c.id \o " ">>), sel |-> sel]
                [] k = 1 -> [id |-> x.c.id, sel |-> Append(all, PickOf(S(s, "more"), all))]
                [] OTHER -> [id |-> x.c.id, sel |-> sel] IN
    [op |-> "b_contest", contest |-> ct, of |-> x.c.id, ns |-> UniQ(S(s, "ns")), verify |-> Chance(S(s, "v"), 1, 2)]
SelCall(s, m) == LET im == Internal(m) x == PickOf(S(s, "x"), im.contests) d == PickOf(S(s, "d"), x.c.sel) k == Pick(S(s, "k"), 6) IN
    [op |-> "b_sel", of |-> x.c.id, sel |-> d.id, ns |-> UniQ(S(s, "ns")), isph |-> Chance(S(s, "ph"), 1, 3), verify |-> Chance(S(s, "v"), 1, 4),
     selection |-> [id |-> IF k = 0 THEN PickOf(S(s, "wid"), <<"other", "", d.id \o "x">>) ELSE d.id, ph |-> Chance(S(s, "phs"), 1, 3), wi |-> "",
                    vote |-> IF k = 1 THEN PickOf(S(s, "bv"), <<2, 3, 256, 1000000>> \o Huge) ELSE Pick(S(s, "vt"), 2)]]
PlainOk(s) == [op |-> "b_plainok", id |-> "c", contest |-> [id |-> PickOf(S(s, "id"), <<"c", "c", "c", "c", "c", "d", "">>),
        sel |-> [i \in 1..Pick(S(s, "n"), 5) |-> [id |-> PickOf(S(S(s, "sid"), i), <<"o1", "o2", "o3">>), vote |-> PickOf(S(S(s, "v"), i), <<0, 0, 1, 1, 1, 1, 1, 2, IF i <= 2 THEN PickOf(S(S(s, "hv"), i), Huge) ELSE 0>>), ph |-> Chance(S(S(s, "ph"), i), 1, 4), wi |-> ""]]],
    ns |-> Pick(S(s, "ns"), 6), ne |-> Pick(S(s, "ne"), 5), va |-> Pick(S(s, "va"), 5), sup |-> Chance(S(s, "sup"), 1, 2), sid |-> "o1"]
PartsScen(u_) == [c \in 1..N(24, 160) |-> LET s == S(S(Seed, "pt"), c) m == Elect(s) pre == Chance(S(s, "pre"), 1, 3) IN
    [id |-> S("parts", c), ops |-> << Setup(s, m) >> \o (IF pre THEN <<[op |-> "b_pre", size |-> 6]>> ELSE <<>>)
        \o [i \in 1..3 |-> ContestCall(S(S(s, "c"), i), m)] \o [i \in 1..4 |-> SelCall(S(S(s, "s"), i), m)] \o [i \in 1..25 |-> PlainOk(S(S(s, "o"), i))]]]

\* ---- family chain: histories on one to three mediators, refused ballots in between
\* the smallest election: one contest with one option and one seat
TinyElect(s) == LET m == MkManifest(s, 1, 0, 1, 1, 1) IN [m EXCEPT !.contests[1].ne = 1, !.contests[1].va = 1, !.contests[1].ctor = 0]
LongChain(c) == LET s == S(S(Seed, "lc"), c) m == TinyElect(s) style == m.styles[1].id IN
    [id |-> S("long", c), ops |-> << Setup(s, m), Med(s, "d/1"), Med(S(s, 2), "d/2") >>
        \o [i \in 1..N(60, 300) |-> LET t == S(s, i) IN [EncOp(t, S("x", i), BallotR(t, m, style, IF i % 13 = 5 THEN <<"two">> ELSE <<"under", "full">>, i % 13 # 7),
                IF c = 1 THEN "med" ELSE PickOf(S(t, "p"), <<"medc", "med">>), IF i % 7 = 3 THEN "d/2" ELSE "d/1") EXCEPT !.verify = FALSE]]]
ChainScen(u_) == [c \in 1..2 |-> LongChain(c)] \o [c \in 1..N(30, 250) |-> LET s == S(S(Seed, "ch"), c) m == SmallElect(s) nm == 1 + Pick(S(s, "nm"), 3) len == Between(S(s, "len"), 3, 9)
        md(i) == S("d", 1 + Pick(S(S(s, "md"), i), nm))
        \* devices may be equal
        dev(i) == IF Chance(S(S(s, "same"), i), 1, 3) THEN S(s, "dv") ELSE S(S(s, "dv"), i)
        step(i) == LET k == Pick(S(S(s, "k"), i), 8) t == S(S(s, "b"), i) style == StyleFor(S(s, "st"), m) IN
            EncOp(t, S("x", i), IF k = 0 THEN BallotR(t, m, "no-such-style", Honest, FALSE)
                                ELSE IF k = 1 THEN BallotR(t, m, style, <<"two", "big">>, TRUE)
                                ELSE BallotR(t, m, style, Honest, FALSE),
                  PickOf(S(S(s, "p"), i), <<"med", "med", "medc", "medc", "direct">>), md(i)) IN
    [id |-> S("chain", c), ops |-> << Setup(s, m) >> \o [i \in 1..nm |-> Med(dev(i), S("d", i))]
        \o (IF Chance(S(s, "pre"), 1, 3) THEN <<[op |-> "b_pre", size |-> 10]>> ELSE <<>>)
        \o [i \in 1..len |-> step(i)]
        \o [i \in 1..2 |-> [op |-> "b_code", prev |-> RndQ(S(S(s, "cp"), i)), ts |-> U64(S(S(s, "ct"), i)), h |-> RndQ(S(S(s, "chh"), i))]]]]

\* ---- family tamper
PQ == <<<<TRUE, "ciphertext/pad">>, <<TRUE, "ciphertext/data">>, <<FALSE, "ciphertext_accumulation/pad">>, <<FALSE, "ciphertext_accumulation/data">>,
        <<FALSE, "proof/pad">>, <<FALSE, "proof/data">>, <<TRUE, "proof/proof_zero_pad">>, <<TRUE, "proof/proof_zero_data">>,
        <<TRUE, "proof/proof_one_pad">>, <<TRUE, "proof/proof_one_data">>>>
QQ == <<<<FALSE, "proof/challenge">>, <<FALSE, "proof/response">>, <<FALSE, "crypto_hash">>, <<FALSE, "description_hash">>, <<TRUE, "crypto_hash">>, <<TRUE, "description_hash">>,
        <<TRUE, "proof/proof_zero_challenge">>, <<TRUE, "proof/proof_one_challenge">>, <<TRUE, "proof/challenge">>,
        <<TRUE, "proof/proof_zero_response">>, <<TRUE, "proof/proof_one_response">>>>
Path(ci, f, k) == "/contests/" \o ToString(ci) \o "/" \o (IF f[1] THEN "ballot_selections/" \o ToString(k) \o "/" ELSE "") \o f[2]
E(p, k, v, from) == [p |-> p, k |-> k, v |-> v, from |-> from]
Num(s, big) == IF big THEN PickOf(S(s, "bp"), <<"00", "01", ISub(P, "01"), "02", G, UniRes(S(s, "res")), RndP(S(s, "rp"))>>)
               ELSE PickOf(S(s, "bq"), <<"00", "01", ISub(Q, "01"), "02", UniQ(S(s, "uq"))>>)
\* one random edit of a ballot with contest ci of ns selections
Edit(s, ci, ns, nc) == LET big == Chance(S(s, "big"), 1, 2) k1 == Pick(S(s, "k1"), ns) k2 == Pick(S(s, "k2"), ns)
        f == IF big THEN PickOf(S(s, "f"), PQ) ELSE PickOf(S(s, "f"), QQ) g == IF big THEN PickOf(S(s, "g"), PQ) ELSE PickOf(S(s, "g"), QQ)
        p == Path(ci, f, k1) o == Path(ci, g, k2) kind == Pick(S(s, "kind"), 12) IN
    CASE kind \in {0, 1} -> E(p, "set", Num(s, big), "")
      [] kind \in {2, 3} -> E(p, "add", "1", "")
      [] kind = 4 -> E(p, "neg", "", "")
      [] kind \in {5, 6} -> E(p, "copy", "", o)
      [] kind = 7 -> E(p, "swap", "", Path(ci, f, k2))
      [] kind = 8 -> E(Path(ci, <<FALSE, S("ballot_selections", k1)>>, 0), "swap", "", Path(ci, <<FALSE, S("ballot_selections", k2)>>, 0))
      [] kind = 9 -> PickOf(S(s, "top"), << E("/crypto_hash", "add", "1", ""), E("/manifest_hash", "add", "1", ""), E("/object_id", "set", "another", ""),
                        E(Path(ci, <<FALSE, "object_id">>, 0), "set", "another", ""), E(Path(ci, <<TRUE, "object_id">>, k1), "set", "another", ""),
                        E(Path(ci, <<FALSE, "proof/constant">>, 0), "num", PickOf(S(s, "cst"), <<"0", "1", "2", "3", "1000">>), "") >>)
      [] kind = 10 -> PickOf(S(s, "ls"), << E(Path(ci, <<FALSE, "ballot_selections">>, 0), "dup", "", Path(ci, <<FALSE, "ballot_selections/0">>, 0)), E(Path(ci, <<FALSE, "ballot_selections/0">>, 0), "drop", "", ""),
                        E("/contests", "dup", "", "/contests/0"), E("/contests/0", "drop", "", ""), E("/contests/" \o ToString(nc - 1), "swap", "", "/contests/0") >>)
      [] OTHER -> E(p, "set", IF big THEN PickOf(S(s, "oor"), <<P, IAdd(P, "01"), MaxP, PMul(UniRes(S(s, "nr")), ISub(P, "01"))>>) ELSE PickOf(S(s, "oor"), <<Q, MaxQ>>), "")
\* every field in turn, in a wide contest: altered, replaced by that of a neighbour
WideElect(s) == LET m == MkManifest(s, 1, 0, 7, 1, 1) IN [m EXCEPT !.contests[1].ne = 2, !.contests[1].va = 2, !.contests[1].ctor = 0]
AllFields == PQ \o QQ
SysTamper(c) == LET s == S(S(Seed, "sys"), c) m == WideElect(s) b == FullBallot(s, m) x == ContestsFor(Internal(m), b.style)[1] ns == Len(Descriptions(x))
        size == N(7, 21) one(i) == LET f == AllFields[(((c - 1) * size + i - 1) % Len(AllFields)) + 1] k == PickOf(S(S(s, "k"), i), <<0, ns - 1, ns - 2, ns \div 2>>) IN
            [op |-> "b_tamper", n |-> "x", edits |-> << IF f[1] /\ Chance(S(S(s, "cp"), i), 1, 3) THEN E(Path(0, f, k), "copy", "", Path(0, f, (k + 1) % ns)) ELSE E(Path(0, f, k), "add", "1", "") >>, rehash |-> FALSE] IN
    [id |-> S("sys", c), ops |-> << Setup(s, m), [EncOp(S(s, "e"), "x", b, "direct", "") EXCEPT !.verify = FALSE] >> \o [i \in 1..size |-> one(i)]]
TamperScen(u_) == [c \in 1..N(6, 12) |-> SysTamper(c)] \o [c \in 1..N(20, 200) |-> LET s == S(S(Seed, "tam"), c) m == SmallElect(s) b == FullBallot(s, m) im == Internal(m) xs == ContestsFor(im, b.style)
        nc == Len(xs)
        one(i) == LET t == S(S(s, "t"), i) ci == Pick(S(t, "ci"), nc) ns == Len(Descriptions(xs[ci + 1])) IN
            [op |-> "b_tamper", n |-> "x", edits |-> [j \in 1..PickOf(S(t, "ne"), <<1, 1, 1, 2>>) |-> Edit(S(t, j), ci, ns, nc)], rehash |-> Chance(S(t, "rh"), 1, 3)]
        other(i) == [op |-> "b_valid", n |-> "x", honest |-> i = 0, mh |-> IF i = 1 THEN <<RndQ(S(s, "omh"))>> ELSE <<>>,
                     pk |-> IF i = 2 THEN <<UniRes(S(s, "opk"))>> ELSE <<>>, xb |-> IF i = 3 THEN <<RndQ(S(s, "oxb"))>> ELSE <<>>] IN
    [id |-> S("tamper", c), ops |-> << Setup(s, m), [EncOp(S(s, "e"), "x", b, "direct", "") EXCEPT !.verify = FALSE] >> \o (IF BallotRefused(im, b) THEN <<>> ELSE
        [i \in 1..4 |-> other(i - 1)] \o << [op |-> "b_validdh", n |-> "x", dh |-> IF Chance(S(s, "dhk"), 1, 2) THEN ContestHash(xs[1].c) ELSE RndQ(S(s, "dh"))] >>
        \o [i \in 1..N(10, 16) |-> one(i)]
        \o << [op |-> "b_make", n |-> "x", to |-> "y", order |-> Shuffle(S(s, "ord"), [i \in 1..nc |-> i]), seed |-> <<UniQ(S(s, "ms"))>>,
               code |-> IF Chance(S(s, "mc"), 1, 2) THEN <<UniQ(S(s, "mcv"))>> ELSE <<>>, ts |-> "7"],
              [op |-> "b_valid", n |-> "y", honest |-> TRUE, mh |-> <<>>, pk |-> <<>>, xb |-> <<>>], [op |-> "b_more", n |-> "x"] >>)]]

ExtremeNum(s) == PickOf(s, <<"0", "1", "255", "256", "65536", "4294967295", "4294967296", "9223372036854775807">>)
Extreme(s) == << E("/timestamp", "num", ExtremeNum(S(s, 1)), ""), E("/contests/0/sequence_order", "num", ExtremeNum(S(s, 2)), ""), E("/contests/0/proof/constant", "num", ExtremeNum(S(s, 3)), ""),
                 E("/contests/0/ballot_selections/0/sequence_order", "num", ExtremeNum(S(s, 4)), ""), E("/contests/0/proof/response", "set", Num(S(s, 5), FALSE), ""),
                 E("/contests/0/ballot_selections/0/proof/proof_one_pad", "set", Num(S(s, 6), TRUE), ""), E("/code", "set", Num(S(s, 7), FALSE), ""),
                 E("/contests/0/ballot_selections/0/nonce", "set", Num(S(s, 8), FALSE), ""), E("/object_id", "set", PickOf(S(s, 9), <<"", "null", "0", "Zürich \" quote">>), ""),
                 E("/contests/0/ballot_selections/0/is_placeholder_selection", "truth", PickOf(S(s, 10), <<"0", "1">>), "") >>
\* ---- family serial: every stored form of a ballot
SerialScen(u_) == [c \in 1..N(20, 160) |-> LET s == S(S(Seed, "ser"), c) m == IF c = 1 THEN ManyContests(s, 9) ELSE IF c = 2 THEN ManyOptions(s, 9) ELSE SmallElect(s) b == BallotR(s, m, StyleFor(s, m), Honest, FALSE) im == Internal(m)
        pub == <<"default", "published", "complete">> routes == <<"from", "ctor", "make", "full">> states == <<1, 2, 999>>
        cut(i, ty, n, fmt) == LET t == S(S(s, "cut"), i) how == PickOf(S(t, "how"), <<"cut", "junk", "flip", "lack", "lack", "type">>) IN
            [op |-> "g_read", type |-> ty, n |-> n, fmt |-> fmt, how |-> how, at |-> Pick(S(t, "at"), 1000), bit |-> Pick(S(t, "bit"), 7),
             text |-> PickOf(S(t, "junk"), <<"", "{", "no json", "[1,2", "\"x", "{\"object_id\":", "}">>)] IN
    [id |-> S("serial", c), ops |-> << Setup(s, m), Med(s, "d"), [op |-> "p_new", n |-> "p", ballot |-> b], [op |-> "p_copy", n |-> "p"] >>
        \o [i \in 1..3 |-> [op |-> "p_trip", n |-> "p", to |-> S("pt", i), fmt |-> Fmts[i]]] \o << [op |-> "p_trip", n |-> "pt/1", to |-> "ptt", fmt |-> "bson"], [op |-> "p_copy", n |-> "pt/2"] >>
        \o << EncOp(S(s, "e"), "x", b, PickOf(S(s, "pp"), <<"direct", "med">>), "d") >>
        \o (IF BallotRefused(im, b) THEN <<>> ELSE << [op |-> "b_copy", n |-> "x"] >>
            \o [i \in 1..3 |-> [op |-> "b_trip", n |-> "x", to |-> S("t", i), fmt |-> Fmts[i], nonces |-> TRUE]]
            \o [i \in 1..3 |-> [op |-> "b_trip", n |-> "x", to |-> S("u", i), fmt |-> Fmts[i], nonces |-> FALSE]]
            \o << [op |-> "b_trip", n |-> "t/1", to |-> "tt", fmt |-> "bson", nonces |-> TRUE], [op |-> "b_copy", n |-> "t/2"], [op |-> "b_copy", n |-> "u/1"],
                  [op |-> "b_valid", n |-> "tt", honest |-> TRUE, mh |-> <<>>, pk |-> <<>>, xb |-> <<>>] >>
            \* numbers no encryption would give, in the form that is read
            \o FoldLeft(LAMBDA acc, i : acc \o << [op |-> "b_edit", n |-> "x", to |-> S("ed", i), edits |-> Extreme(S(S(s, "ed"), i))],
                                                    [op |-> "b_again", n |-> S("ed", i), fmt |-> Fmts[i]] >>, <<>>, <<1, 2, 3>>)
            \o [i \in 1..9 |-> [op |-> "b_publish", n |-> "x", fmt |-> Fmts[1 + (i % 3)], kind |-> pub[1 + ((i - 1) \div 3)]]]
            \o [i \in 1..4 |-> [op |-> "b_submit", n |-> "x", to |-> S("s", i), state |-> PickOf(S(S(s, "state"), i), states), route |-> routes[i]]]
            \* with a code and a timestamp of its own
            \o << [op |-> "b_make", n |-> "x", to |-> "own", order |-> [i \in DOMAIN ContestsFor(im, b.style) |-> i], seed |-> <<UniQ(S(s, "oseed"))>>, code |-> <<UniQ(S(s, "ocode"))>>, ts |-> PickOf(S(s, "ots"), <<"1", "77", "1640995200">>)] >>
            \o [i \in 1..4 |-> [op |-> "b_submit", n |-> "own", to |-> S("so", i), state |-> PickOf(S(S(s, "ostate"), i), states), route |-> routes[i]]]
            \o [i \in 1..12 |-> [op |-> "b_publish", n |-> S("s", 1 + (i % 4)), fmt |-> Fmts[1 + (i % 3)], kind |-> "submitted"]]
            \o [i \in 1..12 |-> [op |-> "s_trip", n |-> S("s", 1 + (i % 4)), to |-> S("st", i), fmt |-> Fmts[1 + (i % 3)]]]
            \o << [op |-> "b_publish", n |-> "st/1", fmt |-> "json", kind |-> "submitted"], [op |-> "b_valid", n |-> "st/2", honest |-> TRUE, mh |-> <<>>, pk |-> <<>>, xb |-> <<>>] >>
            \o [i \in 1..6 |-> cut(i, "cipher", "x", Fmts[1 + (i % 3)])] \o [i \in 1..4 |-> cut(10 + i, "submitted", "s/1", Fmts[1 + (i % 3)])])
        \o [i \in 1..4 |-> cut(20 + i, "plain", "p", Fmts[1 + (i % 3)])] \o [i \in 1..9 |-> cut(30 + i, "manifest", "p", Fmts[1 + (i % 3)])]
        \o [i \in 1..9 |-> cut(40 + i, "internal", "p", Fmts[1 + (i % 3)])]
        \o << [op |-> "st_names", state |-> 1 + (c % 2), text |-> PickOf(S(s, "stx"), <<"cast", "spoiled", "unknown", "CAST", "">>)], [op |-> "st_names", state |-> 999, text |-> "cast"] >>]]

\* ---- family compact
CompactScen(u_) == [c \in 1..N(30, 250) |-> LET s == S(S(Seed, "cmp"), c) m == Elect(s) im == Internal(m) pre == Chance(S(s, "pre"), 1, 3)
        b == FullBallot(S(s, "fb"), m) a == BallotR(S(s, "ab"), m, AnyStyle(S(s, "ab"), m), Storable, FALSE)
        nonce == Nonce(S(s, "gn")) seed == UniQ(S(s, "gs")) n == OptionCount(im, StyleFor(S(s, "ks"), m))
        e1 == [EncOp(S(s, "e1"), "k1", a, PickOf(S(s, "pa"), <<"compact", "medc">>), "d") EXCEPT !.ts = "1640995200"]
        e2 == EncOp(S(s, "e2"), "k2", b, PickOf(S(s, "pb"), <<"compact", "medc">>), "d")
        e3 == [EncOp(S(s, "e3"), "x", b, "direct", "d") EXCEPT !.nonce = <<nonce>>]
        votes(t, len) == [i \in 1..len |-> PickOf(S(t, i), <<0, 0, 0, 1>>)]
        wis(t, len) == [i \in 1..len |-> IF Chance(S(t, i), 1, 4) THEN WriteIn(S(S(t, "w"), i)) ELSE ""]
        kp(t, len) == [id |-> "kp", style |-> StyleFor(S(s, "ks"), m), votes |-> votes(t, len), wi |-> wis(t, PickOf(S(t, "wl"), <<len, len, len, IF len > 0 THEN len - 1 ELSE 0>>))]
        shape(k) == << [op |-> "k_trip", n |-> k, to |-> k \o "j", fmt |-> "json", state |-> 0], [op |-> "k_trip", n |-> k, to |-> k \o "b", fmt |-> "bson", state |-> PickOf(S(s, "kst"), <<1, 2>>)],
                       [op |-> "k_trip", n |-> k, to |-> k \o "m", fmt |-> "msgpack", state |-> 0],
                       [op |-> "k_expand", n |-> PickOf(S(s, k), <<k, k \o "j", k \o "b", k \o "m">>), to |-> k \o "x"] >>
        parts == <<"state", "code", "vote", "wi", "ts", "seed", "nonce", "id", "code", "vote">>
        edit(i) == LET t == S(S(s, "ed"), i) on == OptionCount(im, b.style) p == parts[1 + ((c * 2 + i) % Len(parts))] IN
            << [op |-> "k_edit", n |-> "k2", to |-> S("ke", i), part |-> IF on = 0 /\ p \in {"vote", "wi"} THEN "ts" ELSE p, i |-> IF on = 0 THEN 1 ELSE 1 + Pick(t, on), state |-> PickOf(S(t, "st"), <<1, 2, 999>>)],
               [op |-> "k_expand", n |-> S("ke", i), to |-> S("kex", i)] >>
        alt(t) == [op |-> "k_alter", to |-> "ka" \o t, k |-> [id |-> "kp", plain |-> kp(S(s, t), PickOf(S(S(s, t), "al"), <<n, n, n + 1, IF n > 0 THEN n - 1 ELSE 0>>)), seed |-> seed, code |-> UniQ(S(s, "ac")), ts |-> "5", nonce |-> <<nonce>>, state |-> PickOf(S(S(s, t), "ast"), <<1, 2, 999>>)]]
    IN
    [id |-> S("compact", c), ops |-> << Setup(s, m), Med(s, "d") >> \o (IF pre THEN <<[op |-> "b_pre", size |-> 8]>> ELSE <<>>)
        \o << e1 >> \o (IF BallotRefused(im, a) THEN <<>> ELSE shape("k1"))
        \o << e2 >> \o (IF BallotRefused(im, b) THEN <<>> ELSE shape("k2") \o edit(1) \o edit(2))
        \o (IF BallotRefused(im, b) THEN <<>> ELSE << e3, [op |-> "k_make", n |-> "x", to |-> "k3", ballot |-> b] >> \o shape("k3"))
        \o << [op |-> "p_new", n |-> "p", ballot |-> b], [op |-> "kp_make", n |-> "p", to |-> "q"], [op |-> "p_new", n |-> "pa", ballot |-> a], [op |-> "kp_make", n |-> "pa", to |-> "qa"] >>
        \o [i \in 1..3 |-> [op |-> "kp_trip", n |-> "q", to |-> S("qt", i), fmt |-> Fmts[i]]] \o << [op |-> "kp_expand", n |-> "qt/2", to |-> "pe"] >>
        \o [i \in 1..4 |-> [op |-> "kp_new", to |-> S("r", i), d |-> kp(S(S(s, "kp"), i), PickOf(S(S(s, "kl"), i), <<n, n, n + 2, IF n > 0 THEN n - 1 ELSE 0>>))]]
        \o << [op |-> "kp_new", to |-> "r/5", d |-> [kp(S(s, "kz"), n) EXCEPT !.style = "no-such-style"]] >>
        \o [i \in 1..5 |-> [op |-> "kp_expand", n |-> S("r", i), to |-> S("re", i)]]
        \o << alt("1"), [op |-> "k_expand", n |-> "ka1", to |-> "kax1"], [op |-> "g_read", type |-> "compact", n |-> "ka1", fmt |-> PickOf(S(s, "gf"), Fmts), how |-> PickOf(S(s, "gh"), <<"cut", "flip", "junk", "lack", "type">>),
               at |-> Pick(S(s, "ga"), 1000), bit |-> Pick(S(s, "gb"), 7), text |-> "{"],
              [op |-> "g_read", type |-> "compactplain", n |-> "q", fmt |-> PickOf(S(s, "hf"), Fmts), how |-> PickOf(S(s, "hh"), <<"cut", "flip", "junk", "lack", "type">>),
               at |-> Pick(S(s, "ha"), 1000), bit |-> Pick(S(s, "hb"), 7), text |-> "nope"] >>]]

\* ---- family threads: devices at work side by side over one election
TwoStyles(s) == LET m == TinyElect(s) IN [m EXCEPT !.styles = Append(@, [@[1] EXCEPT !.id = "second style"])]
ThreadScen(u_) == [c \in 1..N(10, 60) |-> LET s == S(S(Seed, "thr"), c) m == IF c % 3 = 0 THEN MkManifest(s, 2, 0, 2, 2, 3) ELSE IF c % 3 = 1 THEN TwoStyles(s) ELSE TinyElect(s) b == FullBallot(S(s, "fb"), m) im == Internal(m)
        \* now and then nothing has been encrypted before
        good == ~BallotRefused(im, b) /\ c % 5 # 2 nt == Between(S(s, "nt"), 2, 3) bg == Chance(S(s, "bg"), 1, 2)
        work(i, j) == LET t == S(S(S(s, "w"), i), j) nm == S(S("y", i), j) k == Pick(S(t, "k"), 10) IN
            IF k < 4 \/ ~good THEN EncOp(t, nm, BallotR(t, m, PickOf(S(t, "sty"), m.styles).id, Kinds, FALSE), PickOf(S(t, "p"), <<"med", "med", "medc", "direct", "compact">>), S("d", i))
            ELSE IF k = 4 THEN [op |-> "b_valid", n |-> "x", honest |-> TRUE, mh |-> <<>>, pk |-> <<>>, xb |-> <<>>]
            ELSE IF k = 5 THEN [op |-> "b_trip", n |-> "x", to |-> nm, fmt |-> PickOf(S(t, "f"), Fmts), nonces |-> Chance(S(t, "nn"), 1, 2)]
            ELSE IF k = 6 THEN [op |-> "b_copy", n |-> "x"]
            ELSE IF k = 7 THEN [op |-> "k_expand", n |-> "k", to |-> nm]
            ELSE IF k = 8 THEN [op |-> "b_publish", n |-> "x", fmt |-> PickOf(S(t, "f"), Fmts), kind |-> PickOf(S(t, "pk"), <<"default", "published", "complete">>)]
            ELSE [op |-> "t_read", fmt |-> PickOf(S(t, "f"), Fmts)]
        fill == IF c % 2 = 0 THEN <<[op |-> "t_fill"]>> ELSE <<[op |-> "t_init", size |-> 3], [op |-> "t_fill"], [op |-> "t_stop"], [op |-> "t_init", size |-> 2], [op |-> "t_fill"]>> IN
    [id |-> S("threads", c), ops |-> << [Setup(s, m) EXCEPT !.fixed = c % 2 = 1] >> \o [i \in 1..nt |-> Med(S(S(s, "dv"), i), S("d", i))]
        \o (IF good THEN << [EncOp(S(s, "e"), "x", b, "direct", "") EXCEPT !.verify = FALSE], [EncOp(S(s, "ek"), "k", b, "compact", "") EXCEPT !.verify = FALSE] >> ELSE <<>>)
        \o (IF bg THEN <<[op |-> "t_init", size |-> 4]>> ELSE <<>>)
        \o << [op |-> "b_threads", bg |-> bg, threads |-> [i \in 1..nt |-> [j \in 1..4 |-> work(i, j)]] \o (IF bg THEN <<fill, <<[op |-> "t_fill"], [op |-> "t_stop"]>>>> ELSE <<>>)] >>]]

\* ---- family wire: documents of ballots, written by the library and written by the specification (of any content)
AnyCipher(s) == << RndP(S(s, "a")), RndP(S(s, "b")) >>
AnySel(s, i) == [id |-> W(S(s, "id")), seq |-> DStr(3 * i), dh |-> RndQ(S(s, "dh")), c |-> AnyCipher(S(s, "c")), hash |-> RndQ(S(s, "h")), ph |-> Chance(S(s, "ph"), 1, 2), nonce |-> <<RndQ(S(s, "n"))>>,
    proof |-> << [a0 |-> RndP(S(s, 1)), b0 |-> RndP(S(s, 2)), a1 |-> RndP(S(s, 3)), b1 |-> RndP(S(s, 4)), c0 |-> RndQ(S(s, 5)), c1 |-> RndQ(S(s, 6)), c |-> RndQ(S(s, 7)), v0 |-> RndQ(S(s, 8)), v1 |-> RndQ(S(s, 9))] >>]
AnyContest(s, i) == [id |-> W(S(s, "id")), seq |-> DStr(5 * i), dh |-> RndQ(S(s, "dh")), sel |-> [j \in 1..Pick(S(s, "ns"), 4) |-> AnySel(S(S(s, "s"), j), j)], acc |-> AnyCipher(S(s, "acc")), hash |-> RndQ(S(s, "h")),
    nonce |-> <<RndQ(S(s, "n"))>>, proof |-> << [a |-> RndP(S(s, 1)), b |-> RndP(S(s, 2)), c |-> RndQ(S(s, 3)), v |-> RndQ(S(s, 4)), k |-> ExtremeNum(S(s, 5))] >>,
    he |-> << [pad |-> RndP(S(s, 6)), data |-> PickBytes(S(s, 7), PickOf(S(s, "hl"), <<1, 32, 64, 544>>)), mac |-> PickBytes(S(s, 8), 32)] >>]
AnyCiphertextBallot(s) == [id |-> W(S(s, "id")), style |-> W(S(s, "st")), mh |-> RndQ(S(s, "mh")), seed |-> RndQ(S(s, "sd")), ts |-> ExtremeNum(S(s, "ts")), code |-> RndQ(S(s, "cd")), nonce |-> <<RndQ(S(s, "n"))>>,
    hash |-> RndQ(S(s, "h")), contests |-> [i \in 1..Pick(S(s, "nc"), 4) |-> AnyContest(S(S(s, "k"), i), i)]]
AnyPlain(s) == [id |-> W(S(s, "id")), style |-> W(S(s, "st")), contests |-> [i \in 1..Pick(S(s, "nc"), 4) |-> [id |-> W(S(S(s, "ci"), i)), sel |-> [j \in 1..Pick(S(S(s, "ns"), i), 4) |-> LET t == S(S(S(s, "s"), i), j) IN
    [id |-> W(S(t, "id")), vote |-> PickOf(S(t, "v"), <<0, 1, 2, 255>>), ph |-> Chance(S(t, "ph"), 1, 3), wi |-> IF Chance(S(t, "w"), 1, 2) THEN WriteIn(t) ELSE ""]]]]]
AnyKp(s) == [id |-> W(S(s, "id")), style |-> W(S(s, "st")), votes |-> [i \in 1..Pick(S(s, "nv"), 5) |-> PickOf(S(S(s, "v"), i), <<0, 1, 7>>)], wi |-> [i \in 1..Pick(S(s, "nw"), 5) |-> W(S(S(s, "w"), i))]]
AnyK(s) == LET p == AnyKp(S(s, "p")) IN [id |-> p.id, plain |-> p, seed |-> RndQ(S(s, "sd")), code |-> RndQ(S(s, "cd")), ts |-> ExtremeNum(S(s, "ts")), nonce |-> <<RndQ(S(s, "n"))>>, state |-> PickOf(S(s, "state"), <<1, 2, 999>>)]
WireScen(u_) == [c \in 1..N(30, 250) |-> LET s == S(S(Seed, "wire"), c) m == IF c = 1 THEN ManyContests(s, 11) ELSE SmallElect(s) b == FullBallot(s, m) im == Internal(m) f(k) == PickOf(S(S(s, "f"), k), TextFmts) IN
    [id |-> S("wire", c), ops |-> << Setup(s, m), Med(s, "d"), [op |-> "p_new", n |-> "p", ballot |-> b], [op |-> "kp_make", n |-> "p", to |-> "q"], EncOp(S(s, "e"), "x", b, PickOf(S(s, "pp"), <<"direct", "med">>), "d") >>
        \o [i \in 1..3 |-> [op |-> "w_plain", n |-> "p", fmt |-> Fmts[i]]] \o [i \in 1..3 |-> [op |-> "w_kp", n |-> "q", fmt |-> Fmts[i]]]
        \o (IF BallotRefused(im, b) THEN <<>> ELSE [i \in 1..6 |-> [op |-> "w_cipher", n |-> "x", fmt |-> Fmts[1 + (i % 3)], nonces |-> i > 3]]
            \o << [op |-> "b_submit", n |-> "x", to |-> "s", state |-> PickOf(S(s, "state"), <<1, 2, 999>>), route |-> PickOf(S(s, "route"), <<"from", "ctor", "make", "full">>)], [op |-> "k_make", n |-> "x", to |-> "k", ballot |-> b] >>
            \o [i \in 1..3 |-> [op |-> "w_sub", n |-> "s", fmt |-> Fmts[i]]] \o [i \in 1..3 |-> [op |-> "w_k", n |-> "k", fmt |-> Fmts[i]]])
        \o [i \in 1..4 |-> LET x == AnyPlain(S(S(s, "ap"), i)) IN [op |-> "p_read", x |-> x, doc |-> PlainD(<<"", "null", "less", "extra">>[i], x), fmt |-> f(i)]]
        \o [i \in 1..2 |-> LET x == AnyKp(S(S(s, "akp"), i)) IN [op |-> "kp_read", x |-> x, doc |-> CompactPlainD(<<"", "extra">>[i], x), fmt |-> f(10 + i)]]
        \o [i \in 1..2 |-> LET x == AnyK(S(S(s, "ak"), i)) IN [op |-> "k_read", x |-> x, doc |-> CompactD(<<"", "extra">>[i], x), fmt |-> f(20 + i)]]
        \o [i \in 1..4 |-> LET x == AnyCiphertextBallot(S(S(s, "ac"), i)) w == i < 3 IN [op |-> "b_read", x |-> x, nonces |-> w, doc |-> CipherD(<<"", "extra", "", "null">>[i], w, x), fmt |-> f(30 + i)]]
        \o [i \in 1..2 |-> LET x == AnyCiphertextBallot(S(S(s, "as"), i)) st == PickOf(S(S(s, "ast"), i), <<1, 2, 999>>) IN [op |-> "s_read", x |-> x, state |-> st, doc |-> SubmittedD(<<"", "null">>[i], x, st), fmt |-> f(40 + i)]]]]

\* documents that are none
BadScen(u_) == [c \in 1..N(16, 160) |-> LET s == S(S(Seed, "bad"), c) fmt(i) == PickOf(S(S(s, "fmt"), i), TextFmts) IN
    [id |-> S("bad", c), ops |-> << Spoil(S(s, 1), "p", PlainD(PickOf(S(s, "v"), <<"", "null", "less", "extra">>), AnyPlain(S(s, "p"))), fmt(1), 60),
        Spoil(S(s, 2), "kp", CompactPlainD("", AnyKp(S(s, "kp"))), fmt(2), 60), Spoil(S(s, 3), "k", CompactD("", AnyK(S(s, "k"))), fmt(3), 60),
        Spoil(S(s, 4), "b", CipherD("", Chance(S(s, "w"), 1, 2), AnyCiphertextBallot(S(s, "b"))), fmt(4), 120), Spoil(S(s, 5), "s", SubmittedD("", AnyCiphertextBallot(S(s, "s")), PickOf(S(s, "st"), <<1, 2, 999>>)), fmt(5), 60) >>]]

Scen(u_) == CASE Want = "bad" -> BadScen(0) [] Want = "wire" -> WireScen(0) [] Want = "threads" -> ThreadScen(0) [] Want = "enc" -> EncScen(0) [] Want = "plain" -> PlainScen(0) [] Want = "parts" -> PartsScen(0) [] Want = "chain" -> ChainScen(0)
              [] Want = "tamper" -> TamperScen(0) [] Want = "serial" -> SerialScen(0) [] Want = "compact" -> CompactScen(0)
ASSUME Emit(Scen(0))
=============================================================================
