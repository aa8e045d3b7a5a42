------------------------------ MODULE MC_Wire -------------------------------
(***************************************************************************)
(* A document says one thing: over small sets of objects, no two objects    *)
(* have a document in common, in whichever of the permitted ways it is      *)
(* written; only what a reader takes to be the same (a candidate without a  *)
(* name and one with an empty name) may coincide.  Loses names a member     *)
(* that is not written (negative control).                                  *)
(***************************************************************************)
EXTENDS Wire
CONSTANTS Loses, Rich
VARIABLE kind
Ways == {"", "null", "full", "less", "extra"}
W1 == {"", "a"}
W2 == IF Rich THEN {"", "a", "null"} ELSE W1
Up(S_, n) == UNION {[1..k -> S_] : k \in 0..n}
Opts(S_) == {<<>>} \cup {<<t>> : t \in S_}
TextSet == Up([v : W1, l : {"en", "es"}], IF Rich THEN 2 ELSE 1)
Contacts == [name : W1, addr : Up(W1, 2), email : Up([a : W1, v : W1], 1), phone : Up([a : W1, v : W1], 1)]
Units == [id : W1, name : W1, type : {0, 9}, contact : Opts(Contacts)]
Parties == [id : W1, name : TextSet, ab : W1, color : W1, logo : W1]
Cands == [id : W1, name : Opts(TextSet), party : W2, image : W1, wi : BOOLEAN]
Styles == [id : W1, gps : Up(W1, 2), parties : Up(W1, 2), image : W2]
SelSet == [id : W1, cand : W1, seq : {"0", "1"}]
ContestSet == [id : {"c"}, dist : W1, seq : {"0", "1"}, vv : {1, 2, 6}, ne : 0..1, va : 0..1, name : W1, title : Opts({<<>>, <<[v |-> "a", l |-> "en"]>>}), sub : Opts({<<>>, <<[v |-> "a", l |-> "en"]>>}),
               sel : Up([id : W1, cand : {"k"}, seq : {"0"}], 1)]
PlainSel == [id : W1, vote : 0..1, ph : BOOLEAN, wi : W1]
Plains == [id : W1, style : W1, contests : Up([id : W1, sel : Up(PlainSel, 1)], 1)] \cup [id : {"a"}, style : {"s"}, contests : {<<[id |-> "c", sel |-> x]>> : x \in Up(PlainSel, 2)}]
Kps == [id : W1, style : W1, votes : Up({0, 1, 2}, 2), wi : Up(W2, 2)]
Contexts == [n : {"1", "2"}, k : {"1", "2"}, pk : {"02", "03"}, com : {"00", "01"}, mh : {"00", "01"}, base : {"05"}, xbase : {"05", "06"}, over : BOOLEAN, max : {"1000000", "7"},
             ext : {<<>>, <<[k |-> "a", v |-> ""]>>, <<[k |-> "a", v |-> "b"]>>, <<[k |-> "b", v |-> "a"]>>, <<[k |-> "a", v |-> "b"], [k |-> "b", v |-> "a"]>>}]
Devices == [dev : {"1", "2"}, ses : {"1", "2"}, launch : {"1", "2"}, loc : W2]
Ks == [plain : [id : W1, style : {"s"}, votes : Up({0, 1}, 1), wi : Up(W1, 1)], seed : {"01", "02"}, code : {"01", "02"}, nonce : {<<"01">>, <<"02">>}, ts : {"1", "2"}, state : {1, 2, 999}]

Known(d) == IF Loses = "" THEN d ELSE SelectSeq(d, LAMBDA x : ~TContains(x[1], Loses))
AsRead(k, x) == IF k = "cand" /\ x.name = <<>> THEN [x EXCEPT !.name = <<(<<>>)>>] ELSE x
DocOf(k, v, x) == CASE k = "unit" -> UnitD(v, x) [] k = "party" -> PartyD(v, x) [] k = "cand" -> CandD(v, x) [] k = "style" -> StyleD(v, x) [] k = "contest" -> ContestD(v, x)
                    [] k = "plain" -> PlainD(v, x) [] k = "kp" -> CompactPlainD(v, x) [] k = "context" -> ContextD(v, x) [] k = "device" -> DeviceD(v, x) [] k = "k" -> CompactD(v, x)
SetOf(k) == CASE k = "unit" -> Units [] k = "party" -> Parties [] k = "cand" -> Cands [] k = "style" -> Styles [] k = "contest" -> ContestSet
              [] k = "plain" -> Plains [] k = "kp" -> Kps [] k = "context" -> Contexts [] k = "device" -> Devices [] k = "k" -> Ks
Kinds == {"unit", "party", "cand", "style", "contest", "plain", "kp", "context", "device", "k"}
Init == kind \in Kinds
Next == UNCHANGED kind
OneThing == LET docs == {<<Rng(Known(DocOf(kind, v, x))), AsRead(kind, x)>> : v \in Ways, x \in SetOf(kind)} IN Cardinality({d[1] : d \in docs}) = Cardinality(docs)
\* what readers refuse is a document of nothing
KindOf == [plain |-> "p", kp |-> "kp", context |-> "cx", device |-> "dv", k |-> "k"]
Spoilt(d, w) == IF w[2] = "gone" THEN SelectSeq(d, LAMBDA x : x[1] # w[1]) ELSE MapSeq(d, LAMBDA x : IF x[1] = w[1] THEN <<w[1], w[2]>> ELSE x)
Few(k) == CASE k = "context" -> {x \in Contexts : x.k = "1" /\ x.pk = "02" /\ x.com = "00" /\ x.xbase = "05"}
            [] k = "plain" -> [id : {"a"}, style : {"s"}, contests : {<<[id |-> "c", sel |-> x]>> : x \in Up(PlainSel, 1)}]
            [] k = "k" -> {x \in Ks : x.plain.id = "a" /\ x.seed = "01" /\ x.code = "01" /\ x.nonce = <<"01">>}
            [] OTHER -> SetOf(k)
Apart == kind \in DOMAIN KindOf => LET docs == {Rng(DocOf(kind, v, x)) : v \in Ways, x \in Few(kind)} IN
    \A x \in Few(kind) : \A v \in Ways \ {"extra"} : LET d == DocOf(kind, v, x) ws == DefectsOf(KindOf[kind], d) IN \A i \in DOMAIN ws : Rng(Spoilt(d, ws[i])) \notin docs
NothingMayLack(k, p) == FALSE
\* no member is written twice
Members == \A x \in SetOf(kind) : \A v \in Ways : LET d == DocOf(kind, v, x) IN Cardinality({d[i][1] : i \in DOMAIN d}) = Len(d)
=============================================================================
