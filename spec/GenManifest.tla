---------------------------- MODULE GenManifest -----------------------------
(* Random manifests (well-formed), single-field changes and breakages.      *)
EXTENDS GenBase
Words == << "", "a", "Party", "some name", "Zürich", "日本語", "null", "0", "with \"quotes\"", "back\\slash", "new\nline", "comma, separated", "x" >>
NonEmpty == << "a", "Party", "some name", "Zürich", "日本語", "null", "0", "with \"quotes\"", "x y", "O'Brien" >>
Rep(t, n) == TextRepeat(t, n)
RECURSIVE DTimes(_, _)
DTimes(n, step) == IF n = 0 THEN "0" ELSE DAdd(step, DTimes(n - 1, step))
W(s) == IF Chance(S(s, "long"), 1, 50) THEN Rep("L", PickOf(S(s, "ln"), <<100, 300, 5000>>)) \o PickBytes(s, 2) ELSE PickOf(s, Words)
Txt(s) == [i \in 1..PickOf(S(s, "tn"), <<0, 1, 1, 2, 3>>) |-> [v |-> W(S(S(s, i), "v")), l |-> PickOf(S(S(s, i), "l"), <<"en", "es", "zh-Hans", "">>)]]
Opt(s, x, p, q) == IF Chance(S(s, "opt"), p, q) THEN <<x>> ELSE <<>>
Anns(s) == [i \in 1..Pick(S(s, "an"), 3) |-> [a |-> W(S(S(s, i), "a")), v |-> W(S(S(s, i), "v"))]]
Contact(s) == IF Chance(S(s, "ce"), 1, 5) THEN [name |-> "", addr |-> <<>>, email |-> <<>>, phone |-> <<>>]
    ELSE [name |-> W(S(s, "cn")), addr |-> [i \in 1..Pick(S(s, "ca"), 3) |-> W(S(S(s, "ad"), i))], email |-> Anns(S(s, "em")), phone |-> Anns(S(s, "ph"))]
IdOf(kind, s, i) == IF Chance(S(s, "weird"), 1, 3) THEN PickOf(S(s, "w"), NonEmpty) \o "-" \o kind \o ToString(i) ELSE kind \o "-" \o ToString(i)
\* families of identifiers that are easily mistaken for each other
IdIn(mode, kind, s, i) ==
    CASE mode = 1 -> "a-rather-long-identifier-whose-first-part-is-the-same-for-all-of-its-kind-" \o kind \o "-" \o ToString(i)
      [] mode = 2 -> Rep("x", i)
      [] mode = 3 -> (IF i % 2 = 0 THEN "Name" ELSE "name") \o ToString((i + 1) \div 2)
      [] mode = 4 -> ToString((i + 1) \div 2) \o (IF i % 2 = 0 THEN " " ELSE "")
      [] mode = 5 -> Rep("0", i) \o "1"
      [] OTHER -> IdOf(kind, s, i)
IdMode(s) == Pick(S(s, "idmode"), 14)
SeqPool == << "0", "1", "2", "3", "4", "5", "10", "11", "255", "256", "1000", "65536", "4294967295", "4294967296", "4294967297", "99999999999", "9007199254740993", "9223372036854770000" >>
\* n distinct sequence orders, in some order
SeqNos(s, n) == LET k == Pick(S(s, "mode"), 5) m == IF k = 2 /\ n > Len(SeqPool) THEN 3 ELSE k IN
    CASE m = 0 -> [i \in 1..n |-> DStr(i - 1)]
      [] m = 1 -> [i \in 1..n |-> DStr(n + 3 - i)]
      [] m = 2 -> SubSeq(Shuffle(S(s, "sh"), SeqPool), 1, n)
      \* equal in the low bits
      [] m = 4 -> [i \in 1..n |-> DAdd("3", DTimes(i - 1, PickOf(S(s, "step"), <<"256", "65536", "4294967296">>)))]
      [] OTHER -> Shuffle(S(s, "sh"), [i \in 1..n |-> DStr(7 * i)])
Dates == << "1970-01-01T00:00:00Z", "1999-12-31T23:59:59Z", "2020-02-29T12:00:00Z", "2021-03-01T08:00:00Z", "2038-01-19T03:14:08Z", "2106-02-07T06:28:16Z", "2250-07-04T01:02:03Z" >>
Unit(s, i, mode) == [id |-> IdIn(mode, "unit", S(s, "u"), i), name |-> W(S(s, "n")), type |-> Pick(S(s, "t"), 29), contact |-> Opt(S(s, "c"), Contact(S(s, "cc")), 1, 2)]
PartyR(s, i, mode) == LET k == Pick(S(s, "pk"), 6) id == IdIn(mode, "party", S(s, "p"), i) IN
    CASE k = 1 -> [id |-> id, name |-> <<>>, ab |-> "", color |-> "", logo |-> "", ctor |-> 1]
      [] k = 2 -> [id |-> id, name |-> <<>>, ab |-> W(S(s, "ab")), color |-> "", logo |-> "", ctor |-> 2]
      [] k = 3 -> [id |-> id, name |-> <<>>, ab |-> W(S(s, "ab")), color |-> W(S(s, "co")), logo |-> W(S(s, "lo")), ctor |-> 3]
      [] k = 4 -> [id |-> id, name |-> <<>>, ab |-> W(S(s, "ab")), color |-> W(S(s, "co")), logo |-> W(S(s, "lo")), ctor |-> 4]
      [] OTHER -> [id |-> id, name |-> Txt(S(s, "nm")), ab |-> W(S(s, "ab")), color |-> W(S(s, "co")), logo |-> W(S(s, "lo")), ctor |-> 0]
CandR(s, i, parties, mode) == LET k == Pick(S(s, "kk"), 6) id == IdIn(mode, "cand", S(s, "k"), i) wi == Chance(S(s, "wi"), 1, 3)
        pt == IF parties = <<>> \/ Chance(S(s, "np"), 1, 3) THEN "" ELSE PickOf(S(s, "pp"), parties).id IN
    CASE k = 1 -> [id |-> id, name |-> <<>>, party |-> "", image |-> "", wi |-> wi, ctor |-> 1]
      [] k = 2 -> [id |-> id, name |-> <<>>, party |-> pt, image |-> "", wi |-> wi, ctor |-> 2]
      [] k = 3 -> [id |-> id, name |-> <<Txt(S(s, "nm"))>>, party |-> "", image |-> "", wi |-> wi, ctor |-> 3]
      [] k = 4 -> [id |-> id, name |-> <<Txt(S(s, "nm"))>>, party |-> pt, image |-> "", wi |-> wi, ctor |-> 4]
      [] OTHER -> [id |-> id, name |-> Opt(S(s, "no"), Txt(S(s, "nm")), 4, 5), party |-> pt, image |-> W(S(s, "im")), wi |-> wi, ctor |-> 0]
ContestR(s, i, seq, units, cands, cmode) ==
    LET n == IF Len(cands) > 7 /\ Chance(S(s, "nall"), 2, 3) THEN Len(cands) ELSE PickOf(S(s, "ns"), <<1, 2, 2, 3, 4>>) mode == IdMode(S(s, "sm")) m == IF n > Len(cands) THEN Len(cands) ELSE n
        ks == SubSeq(Shuffle(S(s, "ks"), cands), 1, m) nos == SeqNos(S(s, "no"), m)
        ne == IF m > 7 THEN PickOf(S(s, "neb"), <<1, m - 2, m - 1, m>>) ELSE IF Chance(S(s, "ne1"), 1, 2) THEN 1 ELSE Pick(S(s, "ne"), m + 1)
        vv == IF Chance(S(s, "vv6"), 1, 2) THEN PickOf(S(s, "vvn"), <<1, 6>>) ELSE Pick(S(s, "vv"), 13)
        ctor == Pick(S(s, "ctor"), 4)
        va == IF ctor \in {1, 2} THEN (IF vv \in {1, 6} THEN ne ELSE 0) ELSE PickOf(S(s, "va"), <<0, ne, ne, ne + 1>>)
    IN [id |-> IdIn(cmode, "contest", S(s, "c"), i), dist |-> PickOf(S(s, "d"), units).id, seq |-> seq, vv |-> vv, ne |-> ne, va |-> va, name |-> W(S(s, "nm")),
        title |-> IF ctor \in {1, 2} THEN <<>> ELSE Opt(S(s, "ti"), Txt(S(s, "tt")), 2, 3),
        sub |-> IF ctor \in {1, 2} THEN <<>> ELSE Opt(S(s, "su"), Txt(S(s, "st")), 2, 3),
        sel |-> [j \in 1..m |-> [id |-> IdIn(mode, "sel", S(S(s, "sid"), j), j), cand |-> ks[j].id, seq |-> nos[j]]], ctor |-> ctor]
StyleR(s, i, units, mode) == LET n == 1 + Pick(S(s, "nu"), Len(units)) us == SubSeq(Shuffle(S(s, "us"), units), 1, n) ctor == Pick(S(s, "ct"), 2)
        base == [j \in 1..n |-> us[j].id] IN
    [id |-> IdIn(mode, "style", S(s, "st"), i), gps |-> IF Chance(S(s, "dup"), 1, 8) THEN Append(base, base[1]) ELSE base,
     parties |-> IF ctor = 1 THEN <<>> ELSE [j \in 1..PickOf(S(s, "np"), <<0, 1, 2, 2, 5>>) |-> W(S(S(s, "py"), j))],
     image |-> IF ctor = 1 THEN "" ELSE W(S(s, "im")), ctor |-> ctor]
MkManifest(s, ng, np, nk, nc, ns) ==
    LET units == [i \in 1..ng |-> Unit(S(S(s, "gp"), i), i, IdMode(S(s, "gm")))]
        parties == [i \in 1..np |-> PartyR(S(S(s, "pa"), i), i, IdMode(S(s, "pm")))]
        cands == [i \in 1..nk |-> CandR(S(S(s, "ca"), i), i, parties, IdMode(S(s, "km")))]
        nos == SeqNos(S(s, "cs"), nc)
    IN [scope |-> W(S(s, "sc")), type |-> Pick(S(s, "ty"), 8), start |-> PickOf(S(s, "sd"), Dates), end |-> PickOf(S(s, "ed"), Dates),
        gps |-> units, parties |-> parties, cands |-> cands,
        contests |-> [i \in 1..nc |-> ContestR(S(S(s, "co"), i), i, nos[i], units, cands, IdMode(S(s, "cm")))],
        styles |-> [i \in 1..ns |-> StyleR(S(S(s, "sy"), i), i, units, IdMode(S(s, "tm")))],
        name |-> Opt(S(s, "nm"), Txt(S(s, "tx")), 1, 2), contact |-> Opt(S(s, "ci"), Contact(S(s, "cx")), 1, 2)]
RndManifest(s) == IF Chance(S(s, "huge"), 1, 15) THEN MkManifest(s, 3 + Pick(S(s, "ng"), 10), Pick(S(s, "np"), 12), 8 + Pick(S(s, "nk"), 8), 8 + Pick(S(s, "nc"), 8), 1 + Pick(S(s, "ns"), 10)) ELSE MkManifest(s, 1 + Pick(S(s, "ng"), 4), Pick(S(s, "np"), 3), 1 + Pick(S(s, "nk"), 6), PickOf(S(s, "nc"), <<0, 1, 1, 2, 3, 4>>), 1 + Pick(S(s, "ns"), 3))

\* every optional part present
T1(x) == <<[v |-> x, l |-> "en"], [v |-> x \o "2", l |-> "es"]>>
Ct(x) == [name |-> x, addr |-> <<x \o "1", "b">>, email |-> <<[a |-> "e", v |-> x]>>, phone |-> <<[a |-> "p", v |-> x]>>]
RichManifest(s) == [scope |-> "scope", type |-> 1 + Pick(S(s, "ty"), 6), start |-> "2021-03-01T08:00:00Z", end |-> "2021-03-02T20:00:00Z",
    gps |-> <<[id |-> "g1", name |-> "one", type |-> 9, contact |-> <<Ct("x")>>], [id |-> "g2", name |-> "two", type |-> 4, contact |-> <<>>]>>,
    parties |-> <<[id |-> "p1", name |-> T1("P"), ab |-> "P1", color |-> "red", logo |-> "l"], [id |-> "p2", name |-> <<>>, ab |-> "", color |-> "", logo |-> ""]>>,
    cands |-> [i \in 1..4 |-> [id |-> "k" \o ToString(i), name |-> <<T1("K")>>, party |-> "p1", image |-> "", wi |-> FALSE]],
    contests |-> << [id |-> "c1", dist |-> "g1", seq |-> "0", vv |-> 6, ne |-> 1, va |-> 2, name |-> "C1", title |-> <<T1("t")>>, sub |-> <<T1("u")>>,
                     sel |-> <<[id |-> "o1", cand |-> "k1", seq |-> "0"], [id |-> "o2", cand |-> "k2", seq |-> "1"]>>],
                    [id |-> "c2", dist |-> "g2", seq |-> "1", vv |-> 1, ne |-> 1, va |-> 0, name |-> "C2", title |-> <<>>, sub |-> <<>>,
                     sel |-> <<[id |-> "o3", cand |-> "k3", seq |-> "0"], [id |-> "o4", cand |-> "k4", seq |-> "5"]>>] >>,
    styles |-> <<[id |-> "s1", gps |-> <<"g1", "g2">>, parties |-> <<"p1">>, image |-> "i"], [id |-> "s2", gps |-> <<"g2">>, parties |-> <<>>, image |-> ""]>>,
    name |-> <<T1("N")>>, contact |-> <<Ct("y")>>]
Z == "changed"
FieldChanges(m) == <<
    [m EXCEPT !.scope = Z], [m EXCEPT !.type = 7], [m EXCEPT !.type = 0], [m EXCEPT !.start = "2021-03-01T08:00:01Z"], [m EXCEPT !.end = "2022-03-02T20:00:00Z"],
    [m EXCEPT !.start = m.end, !.end = m.start],
    [m EXCEPT !.name = <<>>], [m EXCEPT !.contact = <<>>], [m EXCEPT !.name[1][1].v = Z], [m EXCEPT !.name[1][2].l = Z], [m EXCEPT !.name[1] = Rev(@)],
    [m EXCEPT !.contact[1].name = Z], [m EXCEPT !.contact[1].addr[2] = Z], [m EXCEPT !.contact[1].addr = Rev(@)], [m EXCEPT !.contact[1].email[1].v = Z],
    [m EXCEPT !.contact[1].email[1].a = Z], [m EXCEPT !.contact[1].phone[1].v = Z], [m EXCEPT !.contact[1].phone[1].a = Z], [m EXCEPT !.contact[1].phone = <<>>],
    [m EXCEPT !.contact[1].email = m.contact[1].phone, !.contact[1].phone = m.contact[1].email],
    [m EXCEPT !.gps[1].id = Z], [m EXCEPT !.gps[1].name = Z], [m EXCEPT !.gps[2].type = 5], [m EXCEPT !.gps[1].contact = <<>>], [m EXCEPT !.gps[1].contact[1].name = Z],
    [m EXCEPT !.gps = Rev(@)], [m EXCEPT !.gps = <<@[1]>>], [m EXCEPT !.gps[2].contact = m.gps[1].contact],
    [m EXCEPT !.parties[1].id = Z], [m EXCEPT !.parties[1].name = <<>>], [m EXCEPT !.parties[1].name[1].v = Z], [m EXCEPT !.parties[1].ab = Z],
    [m EXCEPT !.parties[1].color = Z], [m EXCEPT !.parties[1].logo = Z], [m EXCEPT !.parties = Rev(@)], [m EXCEPT !.parties = <<>>], [m EXCEPT !.parties[2].name = m.parties[1].name],
    [m EXCEPT !.contests[1].id = Z], [m EXCEPT !.contests[1].dist = "g2"], [m EXCEPT !.contests[2].seq = "3"], [m EXCEPT !.contests[2].seq = "0"], [m EXCEPT !.contests[1].vv = 7],
    [m EXCEPT !.contests[1].ne = 2], [m EXCEPT !.contests[1].va = 1], [m EXCEPT !.contests[1].va = 0], [m EXCEPT !.contests[2].va = 1], [m EXCEPT !.contests[1].name = Z],
    [m EXCEPT !.contests[1].title = <<>>], [m EXCEPT !.contests[1].sub = <<>>], [m EXCEPT !.contests[1].title = <<>>, !.contests[1].sub = <<>>],
    [m EXCEPT !.contests[1].title[1][2].v = Z], [m EXCEPT !.contests[1].sub[1][1].l = Z], [m EXCEPT !.contests[1].title = m.contests[1].sub, !.contests[1].sub = m.contests[1].title],
    [m EXCEPT !.contests[2].title = m.contests[1].title], [m EXCEPT !.contests[2].sub = m.contests[1].title],
    [m EXCEPT !.contests[1].sel[1].id = Z], [m EXCEPT !.contests[1].sel[2].cand = Z], [m EXCEPT !.contests[1].sel[2].seq = "9"], [m EXCEPT !.contests[2].sel = Rev(@)],
    [m EXCEPT !.contests[1].sel = <<@[1]>>], [m EXCEPT !.contests[1].sel = <<>>], [m EXCEPT !.contests = Rev(@)], [m EXCEPT !.contests = <<@[1]>>], [m EXCEPT !.contests = <<>>],
    [m EXCEPT !.styles[1].id = Z], [m EXCEPT !.styles[1].gps = Rev(@)], [m EXCEPT !.styles[1].gps = <<@[1]>>], [m EXCEPT !.styles[1].parties = <<>>], [m EXCEPT !.styles[1].parties[1] = Z],
    [m EXCEPT !.styles[1].image = Z], [m EXCEPT !.styles[2].image = Z], [m EXCEPT !.styles = Rev(@)], [m EXCEPT !.styles = <<@[2]>>], [m EXCEPT !.styles[2].gps = <<>>],
    [m EXCEPT !.cands[1].id = Z], [m EXCEPT !.cands = Rev(@)] >>

\* one or two rules broken at random places
At(s, seq) == 1 + Pick(s, Len(seq))
Break1(m, s) ==
    LET k == Pick(S(s, "bk"), 20) g == At(S(s, "g"), m.gps) t == At(S(s, "t"), m.styles) IN
    CASE k = 0 -> [m EXCEPT !.gps[g].id = ""]
      [] k = 1 -> [m EXCEPT !.gps = Append(@, m.gps[g])]
      [] k = 2 -> [m EXCEPT !.styles[t].id = ""]
      [] k = 3 -> [m EXCEPT !.styles = Append(@, m.styles[t])]
      [] k = 4 -> [m EXCEPT !.styles[t].gps = Append(@, "no-such-unit")]
      [] k = 5 -> [m EXCEPT !.styles[t].gps = <<"no-such-unit">> \o @]
      [] k = 6 /\ m.parties # <<>> -> [m EXCEPT !.parties = Append(@, m.parties[At(S(s, "p"), m.parties)])]
      [] k = 7 -> [m EXCEPT !.cands = Append(@, m.cands[At(S(s, "c"), m.cands)])]
      [] k = 8 -> [m EXCEPT !.cands[At(S(s, "c"), m.cands)].id = ""]
      [] k = 9 /\ m.contests # <<>> -> LET c == At(S(s, "o"), m.contests) IN [m EXCEPT !.contests[c].dist = PickOf(s, <<"", "no-such-unit">>)]
      [] k = 10 /\ m.contests # <<>> -> LET c == At(S(s, "o"), m.contests) IN [m EXCEPT !.contests[c].id = ""]
      [] k = 11 /\ Len(m.contests) > 1 -> [m EXCEPT !.contests[1].seq = m.contests[2].seq]
      [] k = 12 /\ Len(m.contests) > 1 -> [m EXCEPT !.contests[Len(m.contests)].id = m.contests[1].id]
      [] k = 13 /\ m.contests # <<>> -> LET c == At(S(s, "o"), m.contests) IN [m EXCEPT !.contests[c].ne = Len(m.contests[c].sel) + 1, !.contests[c].ctor = 0]
      [] k = 14 /\ m.contests # <<>> -> LET c == At(S(s, "o"), m.contests) IN [m EXCEPT !.contests[c].sel = Append(@, m.contests[c].sel[1])]
      [] k = 15 -> LET c == At(S(s, "c"), m.cands) IN [m EXCEPT !.cands[c].party = "no-such-party", !.cands[c].ctor = 0]
      [] k = 16 /\ m.contests # <<>> -> LET c == At(S(s, "o"), m.contests) IN [m EXCEPT !.contests[c].sel = <<>>, !.contests[c].ne = 0, !.contests[c].ctor = 0]    \* empty, yet allowed
      [] k = 17 /\ m.contests # <<>> -> LET c == At(S(s, "o"), m.contests) IN [m EXCEPT !.contests[c].ne = 2, !.contests[c].va = 1, !.contests[c].ctor = 0]
      [] k = 18 /\ m.contests # <<>> /\ Len(m.contests[1].sel) > 1 -> [m EXCEPT !.contests[1].sel[2].seq = m.contests[1].sel[1].seq]
      [] OTHER -> [m EXCEPT !.styles[t].gps = <<>>]
Broken(m, s) == IF Chance(S(s, "two"), 1, 3) THEN Break1(Break1(m, S(s, 1)), S(s, 2)) ELSE Break1(m, S(s, 1))
=============================================================================
