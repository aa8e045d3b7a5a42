---------------------------- MODULE Gen_Manifest ----------------------------
(* Scenarios for manifests, contexts and devices.                           *)
EXTENDS GenWire, GenManifest
Want == EnvText("eg.want", "manifest")
Fmts == <<"json", "bson", "msgpack">>
Chunks(name, ops, size) == [k \in 1..((Len(ops) + size - 1) \div size) |->
    [id |-> S(name, k), ops |-> SubSeq(ops, (k - 1) * size + 1, IF k * size > Len(ops) THEN Len(ops) ELSE k * size)]]

\* a manifest, its trips and copies, its internal form, and every style
About(name, m, s) ==
    [id |-> name, ops |->
        << [op |-> "mf_new", n |-> "m", m |-> m], [op |-> "mf_copies", n |-> "m"] >>
        \o [i \in 1..3 |-> [op |-> "mf_trip", n |-> "m", to |-> S("t", i), fmt |-> Fmts[i]]]
        \o << [op |-> "mf_trip", n |-> "t/1", to |-> "tt", fmt |-> "bson"], [op |-> "mf_copies", n |-> "t/2"] >>
        \o << [op |-> "im_new", n |-> "i", m |-> "m"], [op |-> "im_new", n |-> "it", m |-> "t/3"], [op |-> "im_lookup", n |-> "i"], [op |-> "im_copies", n |-> "i"] >>
        \o [i \in 1..3 |-> [op |-> "im_trip", n |-> "i", to |-> S("ix", i), fmt |-> Fmts[i]]]
        \o << [op |-> "im_trip", n |-> "ix/1", to |-> "ixx", fmt |-> "msgpack"] >>
        \o [i \in DOMAIN m.styles |-> [op |-> "im_for", n |-> "i", style |-> m.styles[i].id]]
        \o [i \in DOMAIN m.styles |-> [op |-> "im_for", n |-> "ix/2", style |-> m.styles[i].id]]
        \o [i \in 1..2 |-> [op |-> "im_for", n |-> "i", style |-> <<"no-such-style", "">>[i]]]]
\* --- manifests that are large in one direction, well-formed or with one rule broken by what comes last
Large(k, s) ==
    CASE k = 0 -> MkManifest(s, 270, 1, 2, 2, 2)
      [] k = 1 -> MkManifest(s, 2, 270, 3, 1, 1)
      [] k = 2 -> MkManifest(s, 1, 1, 270, 1, 1)
      [] k = 3 -> MkManifest(s, 3, 0, 2, 140, 2)
      [] OTHER -> MkManifest(s, 3, 1, 2, 2, 270)
LargeBad(k, m) ==
    CASE k = 0 -> [m EXCEPT !.gps = Append(@, m.gps[3])]
      [] k = 1 -> [m EXCEPT !.parties = Append(@, m.parties[5])]
      [] k = 2 -> IF Len(m.contests[1].sel) > 2 THEN [m EXCEPT !.contests[1].sel[Len(m.contests[1].sel)].seq = m.contests[1].sel[2].seq] ELSE [m EXCEPT !.cands = Append(@, m.cands[9])]
      [] k = 3 -> [m EXCEPT !.contests[140].seq = m.contests[3].seq]
      [] OTHER -> [m EXCEPT !.styles = Append(@, m.styles[1])]
LargeScen(u_) == [c \in 1..N(5, 15) |-> LET s == S(S(Seed, "large"), c) k == c % 5 m == Large(k, s) IN
    [id |-> S("large", c), ops |-> << [op |-> "mf_new", n |-> "m", m |-> m], [op |-> "mf_trip", n |-> "m", to |-> "t", fmt |-> Fmts[1 + (c % 3)]],
        [op |-> "im_new", n |-> "i", m |-> "m"], [op |-> "im_lookup", n |-> "i"], [op |-> "im_trip", n |-> "i", to |-> "it", fmt |-> Fmts[1 + ((c + 1) % 3)]],
        [op |-> "im_for", n |-> "it", style |-> m.styles[Len(m.styles)].id], [op |-> "mf_lite", m |-> LargeBad(k, m)] >>]]

ManifestScen(u_) ==
    [c \in 1..N(120, 900) |-> About(S("valid", c), RndManifest(S(S(Seed, "mf"), c)), S(Seed, c))]
    \o [c \in 1..N(60, 400) |-> LET s == S(S(Seed, "mb"), c) IN About(S("broken", c), Broken(RndManifest(s), s), s)]
    \o (IF Div = 1 THEN LargeScen(0) ELSE <<>>)

\* --- single-field changes of one manifest: every change must give a valid object with the specified (different) hash
FieldScen(u_) == [c \in 1..N(2, 12) |-> LET s == S(S(Seed, "fld"), c) m == RichManifest(s) fs == FieldChanges(m) IN
    [id |-> S("fields", c), ops |-> <<[op |-> "mf_lite", m |-> m]>> \o [i \in DOMAIN fs |-> [op |-> "mf_lite", m |-> fs[i]]]]]

\* --- exhaustive small manifests, rule by rule
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S_, n) == IF n = 0 THEN {<<>>} ELSE LET R == SeqsUpTo(S_, n - 1) IN R \cup {Append(r, x) : r \in R, x \in S_}
G0(id) == [id |-> id, name |-> "unit", type |-> 9, contact |-> <<>>]
P0(id) == [id |-> id, name |-> <<>>, ab |-> "", color |-> "", logo |-> ""]
C0(id, party) == [id |-> id, name |-> <<>>, party |-> party, image |-> "", wi |-> FALSE]
S0(id, gps) == [id |-> id, gps |-> gps, parties |-> <<>>, image |-> ""]
O0(id, cand, seq) == [id |-> id, cand |-> cand, seq |-> seq]
K0(id, dist, seq) == [id |-> id, dist |-> dist, seq |-> seq, vv |-> 6, ne |-> 1, va |-> 1, name |-> "c", title |-> <<>>, sub |-> <<>>,
                      sel |-> <<O0("o1", "k1", "0"), O0("o2", "k2", "1")>>]
M0 == [scope |-> "s", type |-> 1, start |-> "2021-01-01T00:00:00Z", end |-> "2021-01-02T00:00:00Z", gps |-> <<G0("g1"), G0("g2")>>,
       parties |-> <<P0("p1")>>, cands |-> <<C0("k1", "p1"), C0("k2", "")>>, contests |-> <<K0("c1", "g1", "0")>>,
       styles |-> <<S0("s1", <<"g1">>)>>, name |-> <<>>, contact |-> <<>>]
GpCases(u_) == {[M0 EXCEPT !.gps = [i \in DOMAIN x |-> G0(x[i])], !.styles = <<S0("s1", <<st>>)>>, !.contests = <<K0("c1", d, "0")>>] :
               x \in SeqsUpTo({"", "g1", "g2"}, N(2, 3)), st \in {"", "g1", "g2"}, d \in {"", "g1", "g2"}}
StyleCases(u_) == {[M0 EXCEPT !.styles = [i \in DOMAIN x |-> S0(x[i][1], x[i][2])]] :
               x \in SeqsUpTo({"", "s1", "s2"} \X (IF Deep THEN SeqsUpTo({"", "g1", "g3"}, 2) ELSE {<<>>, <<"g1">>, <<"g3">>, <<"g2", "g3">>, <<"g1", "g2">>}), 2)}
PartyCases(u_) == {[M0 EXCEPT !.parties = [i \in DOMAIN x |-> P0(x[i])], !.cands = <<[C0("k1", y) EXCEPT !.wi = w], C0("k2", z)>>] :
               x \in SeqsUpTo({"", "p1", "p2"}, 2), y \in {"", "p1", "p2"}, z \in {"", "p1"}, w \in BOOLEAN}
CandCases(u_) == {[M0 EXCEPT !.cands = [i \in DOMAIN x |-> C0(x[i][1], x[i][2])]] :
               x \in SeqsUpTo({"", "k1", "k2"} \X {"", "p1", "p9"}, 2)}
ContestCases(u_) == {[M0 EXCEPT !.contests = [i \in DOMAIN x |-> K0(x[i][1], x[i][2], x[i][3])]] :
               x \in SeqsUpTo({"", "c1", "c2"} \X {"g1", "g2", "", "zz"} \X {"0", "1"}, 2)}
SelCases(u_) == {[K0("c", "g1", "0") EXCEPT !.sel = [i \in DOMAIN x |-> O0(x[i][1], x[i][2], x[i][3])], !.ne = ne, !.va = va] :
               x \in SeqsUpTo({"", "o1", "o2"} \X {"k1", "k2", ""} \X {"0", "7"}, IF Deep THEN 2 ELSE 1), ne \in 0..3, va \in 0..3}
Three(u_) == {[K0("c", "g1", "0") EXCEPT !.sel = <<O0(a[1], a[2], a[3]), O0(b[1], b[2], b[3]), O0(d[1], d[2], d[3])>>, !.ne = 1, !.va = 0] :
               a \in {<<"o1", "k1", "0">>}, b \in {"o1", "o2", ""} \X {"k1", "k2", ""} \X {"0", "1"},
               d \in {"o1", "o2", "o3"} \X {"k1", "k2", "k3"} \X {"0", "1", "18446744073709551615"}}
Limits(u_) == {[K0("c", "g1", "0") EXCEPT !.sel = [i \in 1..n |-> O0(S("o", i), S("k", i), DStr(i))], !.ne = ne, !.va = va, !.vv = vv] :
               n \in 0..3, ne \in 0..4, va \in 0..4, vv \in 0..12}
Lite(ms) == LET q == SetToSeq(ms) IN [i \in DOMAIN q |-> [op |-> "mf_lite", m |-> q[i]]]
CtLite(cs) == LET q == SetToSeq(cs) IN [i \in DOMAIN q |-> [op |-> "ct_lite", c |-> q[i]]]
ExhScen(u_) == Chunks("gps", Lite(GpCases(0)), 60) \o Chunks("styles", Lite(StyleCases(0)), 60) \o Chunks("parties", Lite(PartyCases(0)), 60)
           \o Chunks("cands", Lite(CandCases(0)), 60) \o Chunks("contests", Lite(ContestCases(0)), 60)
           \o Chunks("sels", CtLite(SelCases(0)), 100) \o Chunks("three", CtLite(Three(0)), 100) \o Chunks("limits", CtLite(Limits(0)), 100)

\* --- contexts, devices, mediators
U64s == << "0", "1", "2", "3", "5", "255", "4294967295", "4294967296", "9223372036854775807" >>
U64(s) == IF Chance(S(s, "u"), 2, 3) THEN PickOf(s, U64s) ELSE DStr(Pick(s, 2000000000))
ExtKeys == <<"a", "b", "key with space", "ключ">>
Cx(s, mh, name) == LET n == Pick(S(s, "ext"), 5) IN
    [op |-> "cx_new", name |-> name, n |-> U64(S(s, "n")), k |-> U64(S(s, "k")), pk |-> UniRes(S(s, "pk")), com |-> RndQ(S(s, "com")), mh |-> mh,
     ctor |-> Pick(S(s, "ctor"), 8), over |-> Chance(S(s, "over"), 1, 2), max |-> U64(S(s, "max")),
     ext |-> [i \in 1..n |-> [k |-> ExtKeys[i], v |-> PickOf(S(s, i), Words)]]]
CxTrips(name) == <<[op |-> "cx_trip", name |-> name, to |-> "ct", fmt |-> "json"], [op |-> "cx_trip", name |-> name, to |-> "cb", fmt |-> "bson"],
                   [op |-> "cx_trip", name |-> "ct", to |-> "ctb", fmt |-> "bson"]>>
Dv(s, name) == [op |-> "dv_new", name |-> name, dev |-> U64(S(s, "d")), ses |-> U64(S(s, "s")), launch |-> U64(S(s, "l")), loc |-> PickOf(S(s, "loc"), Words)]
CxScen(u_) == [c \in 1..N(40, 300) |-> LET s == S(S(Seed, "cx"), c) m == RndManifest(S(s, "m")) mh == ManifestHash(m)
        other == IF Chance(S(s, "near"), 1, 2) THEN QAdd(mh, "01") ELSE RndQ(S(s, "oth")) IN
    [id |-> S("context", c), ops |->
        << [op |-> "mf_new", n |-> "m", m |-> m], [op |-> "im_new", n |-> "i", m |-> "m"], [op |-> "im_trip", n |-> "i", to |-> "i2", fmt |-> "json"],
           Cx(S(s, 1), mh, "c"), Cx(S(s, 2), other, "x") >> \o CxTrips("c") \o CxTrips("x")
        \o << Cx([s |-> s].s \o "/3", RndQ(S(s, "z")), "z"), Dv(S(s, 4), "d"), [op |-> "dv_trip", name |-> "d", to |-> "dj", fmt |-> "json"],
              [op |-> "dv_trip", name |-> "dj", to |-> "db", fmt |-> "bson"],
              [op |-> "md_new", name |-> "md1", im |-> "i", cx |-> "c", dv |-> "d"], [op |-> "md_new", name |-> "md2", im |-> "i", cx |-> "x", dv |-> "d"],
              [op |-> "md_new", name |-> "md3", im |-> "i2", cx |-> "c", dv |-> "db"], [op |-> "md_new", name |-> "md4", im |-> "i2", cx |-> "z", dv |-> "db"] >>]]

\* every way of making a context with every small pair of numbers
CxNos == <<"0", "1", "2", "4294967296">>
CxGrid(u_) == [c \in 1..8 |-> LET s == S(S(Seed, "cxg"), c) IN
    [id |-> S("grid", c), ops |-> [i \in 1..16 |->
        [Cx(S(s, i), RndQ(S(s, i) \o "z"), "c" \o ToString(i)) EXCEPT !.ctor = c - 1, !.n = CxNos[((i - 1) \div 4) + 1], !.k = CxNos[((i - 1) % 4) + 1]]]]]

\* --- contests with placeholders, made directly (C interface)
WpOne(s) == LET units == <<Unit(S(s, "u"), 1, 9)>> cands == [i \in 1..4 |-> [id |-> "k" \o ToString(i)]]
        c == ContestR(S(s, "c"), 1, PickOf(S(s, "q"), SeqPool), units, cands, 9) ctor == Pick(S(s, "ctor"), 4) parts == Pick(S(s, "parts"), 3)
        k == [c EXCEPT !.va = IF ctor \in {0, 2} THEN (IF c.vv \in {1, 6} THEN c.ne ELSE 0) ELSE @,
                       !.title = IF ctor \in {0, 2} THEN <<>> ELSE <<Txt(S(s, "t1"))>>, !.sub = IF ctor \in {0, 2} THEN <<>> ELSE <<Txt(S(s, "t2"))>>]
    IN [op |-> "wp_new", c |-> k, ctor |-> ctor, ph |-> IF parts = 0 THEN Placeholders(k) ELSE [i \in 1..parts |-> [id |-> "ph" \o ToString(i), cand |-> W(S(s, i)), seq |-> DStr(50 + i)]]]
WpScen(u_) == [c \in 1..N(60, 600) |-> [id |-> S("wp", c), ops |-> [i \in 1..3 |-> WpOne(S(S(S(Seed, "wp"), c), i))]]]

\* --- documents: written from objects, read from documents the specification writes
Vars == <<"", "null", "full", "less", "extra">>
Zones == << <<"2021-03-01T08:00:00-05:00", "2021-03-01T13:00:00Z">>, <<"2021-03-01T08:00:00+00:00", "2021-03-01T08:00:00Z">>, <<"2020-12-31T23:30:00+05:30", "2020-12-31T18:00:00Z">>,
            <<"2020-02-28T20:00:00-08:00", "2020-02-29T04:00:00Z">> >>
\* what readers know of a name they do not know
Unheard(s, d, m) == IF ~Chance(S(s, "unk"), 1, 4) THEN <<d, m>> ELSE
    <<MapSeq(d, LAMBDA x : IF x[1] = "/type" THEN <<x[1], "t:no such type">> ELSE x), [m EXCEPT !.type = 0]>>
Zoned(s, d, m) == IF ~Chance(S(s, "zon"), 1, 3) THEN <<d, m>> ELSE LET z == PickOf(S(s, "z"), Zones) IN
    <<MapSeq(d, LAMBDA x : IF x[1] = "/start_date" THEN <<x[1], "t:" \o z[1]>> ELSE x), [m EXCEPT !.start = z[2]]>>
MfRead(s, m, v, fmt) == LET a == Zoned(s, ManifestD(v, m), m) b == Unheard(s, a[1], a[2]) IN [op |-> "mf_read", doc |-> b[1], m |-> b[2], fmt |-> fmt]
CxOf(s) == LET n == Pick(S(s, "ext"), 5) nn == U64(S(s, "n")) kk == U64(S(s, "k")) mh == RndQ(S(s, "mh")) com == RndQ(S(s, "com")) std == Chance(S(s, "std"), 1, 2) IN
    \* the hashes as given, whatever they are
    [n |-> nn, k |-> kk, pk |-> UniRes(S(s, "pk")), com |-> com, mh |-> mh, base |-> RndQ(S(s, "base")), xbase |-> RndQ(S(s, "xb")),
     over |-> std \/ Chance(S(s, "over"), 1, 2), max |-> IF std THEN "1000000" ELSE U64(S(s, "max")), ext |-> [i \in 1..n |-> [k |-> ExtKeys[i], v |-> PickOf(S(s, i), Words)]]]
DvOf(s) == LET d == [dev |-> U64(S(s, "d")), ses |-> U64(S(s, "s")), launch |-> U64(S(s, "l")), loc |-> PickOf(S(s, "loc"), Words)] IN
    [dev |-> d.dev, ses |-> d.ses, launch |-> d.launch, loc |-> d.loc, hash |-> DeviceHash(d)]
WireScen(u_) == [c \in 1..N(70, 600) |-> LET s == S(S(Seed, "wire"), c) m == IF c % 3 = 0 THEN RichManifest(s) ELSE RndManifest(s) IN
    [id |-> S("wire", c), ops |->
        << [op |-> "mf_new", n |-> "m", m |-> m], [op |-> "im_new", n |-> "i", m |-> "m"], Cx(S(s, 1), RndQ(S(s, "mh")), "c"), Dv(S(s, 4), "d"), [op |-> "const_doc", fmt |-> PickOf(S(s, "cf"), Fmts)] >>
        \o [i \in 1..3 |-> [op |-> "mf_doc", n |-> "m", fmt |-> Fmts[i]]] \o [i \in 1..3 |-> [op |-> "im_doc", n |-> "i", fmt |-> Fmts[i]]]
        \o [i \in 1..2 |-> [op |-> "cx_doc", name |-> "c", fmt |-> Fmts[i]]] \o [i \in 1..2 |-> [op |-> "dv_doc", name |-> "d", fmt |-> Fmts[i]]]
        \o [i \in 1..5 |-> MfRead(S(s, i), m, Vars[i], PickOf(S(S(s, "tf"), i), TextFmts))]
        \o [i \in 1..3 |-> LET v == PickOf(S(S(s, "iv"), i), <<"", "null", "full", "extra">>) IN [op |-> "im_read", doc |-> InternalD(v, Internal(m)), x |-> Internal(m), fmt |-> PickOf(S(S(s, "if"), i), TextFmts)]]
        \o [i \in 1..5 |-> LET x == CxOf(S(S(s, "cx"), i)) IN [op |-> "cx_read", doc |-> ContextD(Vars[i], x), x |-> x, fmt |-> PickOf(S(S(s, "xf"), i), <<"json", "bson", "pretty", "ascii">>)]]
        \o [i \in 1..2 |-> LET x == DvOf(S(S(s, "dx"), i)) IN [op |-> "dv_read", doc |-> DeviceD(<<"", "extra">>[i], x), x |-> x, fmt |-> PickOf(S(S(s, "df"), i), <<"json", "bson", "pretty", "ascii">>)]]]]

\* documents that are none
BadScen(u_) == [c \in 1..N(16, 160) |-> LET s == S(S(Seed, "bad"), c) m == IF c % 3 = 0 THEN RichManifest(s) ELSE RndManifest(s) fmt(i) == PickOf(S(S(s, "fmt"), i), TextFmts) fmt2(i) == PickOf(S(S(s, "fmt"), i), <<"json", "bson", "pretty", "ascii">>) IN
    [id |-> S("bad", c), ops |-> << Spoil(S(s, 1), "mf", ManifestD(PickOf(S(s, "v"), Vars), m), fmt(1), 120), Spoil(S(s, 2), "im", InternalD("", Internal(m)), fmt(2), 80),
        Spoil(S(s, 3), "cx", ContextD(PickOf(S(s, "cv"), Vars), CxOf(S(s, "cx"))), fmt2(3), 60), Spoil(S(s, 4), "dv", DeviceD("", DvOf(S(s, "dv"))), fmt2(4), 60) >>]]

Scen(u_) == CASE Want = "bad" -> BadScen(0)
              [] Want = "manifest" -> ManifestScen(0)
              [] Want = "fields" -> FieldScen(0)
              [] Want = "small" -> ExhScen(0)
              [] Want = "context" -> CxScen(0) \o CxGrid(0)
              [] Want = "wire" -> WireScen(0)
              [] Want = "wp" -> WpScen(0)
ASSUME Emit(Scen(0))
=============================================================================
