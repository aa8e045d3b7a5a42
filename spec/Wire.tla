------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The documents in which objects are stored and exchanged: which members  *)
(* they have, how their values are written, which members may be missing,  *)
(* and what is read where they are.                                        *)
(*   document : <<path, value>> pairs; a path is made of /member and #index *)
(*   value    : t:text  n:number  b:true  null  []  {}                     *)
(* v says how a document is written that is to be read:                    *)
(*   ""  as the library writes it      "null"  null for what is missing    *)
(*   "full" empty values for it        "less"  without what has a default  *)
(*   "extra" with members nobody knows                                     *)
(***************************************************************************)
EXTENDS Manifest, SequencesExt

Lf(x)     == << <<"", x>> >>
T(x)      == Lf("t:" \o x)
Nr(d)     == Lf("n:" \o d)
Tf(b)     == Lf(IF b THEN "b:true" ELSE "b:false")
Nil       == Lf("null")
Under(p, d) == MapSeq(d, LAMBDA x : <<p \o x[1], x[2]>>)
Arr(ds)   == IF ds = <<>> THEN Lf("[]") ELSE FlattenSeq([i \in DOMAIN ds |-> Under("#" \o ToString(i - 1), ds[i])])
Obj(v, ms) == LET all == ms \o (IF v = "extra" THEN << <<"x_member_of_another_version", Arr(<<T("x"), Nr("7")>>)>> >> ELSE <<>>) IN
    IF all = <<>> THEN Lf("{}") ELSE FlattenSeq(MapSeq(all, LAMBDA m : Under("/" \o m[1], m[2])))
M(name, d) == << <<name, d>> >>
\* written unless it is empty; may be missing
Opt0(v, name, empty, d, e) == IF ~empty THEN M(name, d) ELSE CASE v = "null" -> M(name, Nil) [] v = "full" /\ e # <<>> -> M(name, e) [] OTHER -> <<>>
\* always written; may be missing where it has its default
Dft(v, name, isdefault, d) == IF ~isdefault THEN M(name, d) ELSE CASE v = "null" -> M(name, Nil) [] v = "less" -> <<>> [] OTHER -> M(name, d)

TextD(v, t) == Obj(v, M("text", Arr(MapSeq(t, LAMBDA x : Obj(v, M("value", T(x.v)) \o M("language", T(x.l)))))))
AnnD(v, x) == Obj(v, M("annotation", T(x.a)) \o M("value", T(x.v)))
ContactD(v, c) == Obj(v, Opt0(v, "name", c.name = "", T(c.name), T("")) \o Opt0(v, "address_line", c.addr = <<>>, Arr(MapSeq(c.addr, T)), Arr(<<>>))
    \o Opt0(v, "email", c.email = <<>>, Arr(MapSeq(c.email, LAMBDA x : AnnD(v, x))), Arr(<<>>))
    \o Opt0(v, "phone", c.phone = <<>>, Arr(MapSeq(c.phone, LAMBDA x : AnnD(v, x))), Arr(<<>>)))
OptContactD(v, o) == Opt0(v, "contact_information", o = <<>>, IF o = <<>> THEN Nil ELSE ContactD(v, o[1]), <<>>)
OptTextD(v, name, o, e) == Opt0(v, name, o = <<>>, IF o = <<>> THEN Nil ELSE TextD(v, o[1]), e)
UnitD(v, g) == Obj(v, M("object_id", T(g.id)) \o M("name", T(g.name)) \o M("type", T(UnitNames[g.type + 1])) \o OptContactD(v, g.contact))
PartyD(v, p) == Obj(v, M("object_id", T(p.id)) \o Dft(v, "name", p.name = <<>>, TextD(v, p.name)) \o Opt0(v, "abbreviation", p.ab = "", T(p.ab), T(""))
    \o Opt0(v, "color", p.color = "", T(p.color), T("")) \o Opt0(v, "logo_uri", p.logo = "", T(p.logo), T("")))
CandD(v, k) == Obj(v, M("object_id", T(k.id)) \o OptTextD(v, "name", k.name, TextD(v, <<>>)) \o Opt0(v, "party_id", k.party = "", T(k.party), T(""))
    \o Opt0(v, "image_uri", k.image = "", T(k.image), T("")) \o Opt0(v, "is_write_in", ~k.wi, Tf(k.wi), Tf(FALSE)))
StyleD(v, s) == Obj(v, M("object_id", T(s.id)) \o M("geopolitical_unit_ids", Arr(MapSeq(s.gps, T))) \o Opt0(v, "party_ids", s.parties = <<>>, Arr(MapSeq(s.parties, T)), Arr(<<>>))
    \o Opt0(v, "image_uri", s.image = "", T(s.image), T("")))
SelD(v, s) == Obj(v, M("object_id", T(s.id)) \o M("candidate_id", T(s.cand)) \o M("sequence_order", Nr(s.seq)))
SelsD(v, ss) == Arr(MapSeq(ss, LAMBDA s : SelD(v, s)))
AllowedByDefault(c) == IF VoteNames[c.vv + 1] \in {"n_of_m", "one_of_m"} THEN c.ne ELSE 0
ContestMs(v, c, va) == M("object_id", T(c.id)) \o M("electoral_district_id", T(c.dist)) \o M("sequence_order", Nr(c.seq)) \o M("vote_variation", T(VoteNames[c.vv + 1]))
    \o M("number_elected", Nr(DStr(c.ne))) \o va \o M("name", T(c.name)) \o OptTextD(v, "ballot_title", c.title, <<>>) \o OptTextD(v, "ballot_subtitle", c.sub, <<>>)
    \o M("ballot_selections", SelsD(v, c.sel))
ContestD(v, c) == Obj(v, ContestMs(v, c, Dft(v, "votes_allowed", c.va = AllowedByDefault(c), Nr(DStr(c.va)))))
ManifestD(v, m) == Obj(v, M("spec_version", T("1.0")) \o M("election_scope_id", T(m.scope)) \o M("type", T(TypeNames[m.type + 1])) \o M("start_date", T(m.start)) \o M("end_date", T(m.end))
    \o M("geopolitical_units", Arr(MapSeq(m.gps, LAMBDA x : UnitD(v, x)))) \o M("parties", Arr(MapSeq(m.parties, LAMBDA x : PartyD(v, x))))
    \o M("candidates", Arr(MapSeq(m.cands, LAMBDA x : CandD(v, x)))) \o M("contests", Arr(MapSeq(m.contests, LAMBDA x : ContestD(v, x))))
    \o M("ballot_styles", Arr(MapSeq(m.styles, LAMBDA x : StyleD(v, x)))) \o OptTextD(v, "name", m.name, <<>>) \o OptContactD(v, m.contact))
InternalD(v, im) == Obj(v, M("manifest_hash", T(im.mh)) \o M("geopolitical_units", Arr(MapSeq(im.gps, LAMBDA x : UnitD(v, x))))
    \o M("candidates", Arr(MapSeq(im.cands, LAMBDA x : CandD(v, x)))) \o M("ballot_styles", Arr(MapSeq(im.styles, LAMBDA x : StyleD(v, x))))
    \o M("contests", Arr(MapSeq(InSeqOrder(im.contests), LAMBDA x : Obj(v, ContestMs(v, x.c, M("votes_allowed", Nr(DStr(x.c.va)))) \o M("ballot_placeholders", SelsD(v, x.ph)))))))
ContextD(v, c) == Obj(v, M("number_of_guardians", Nr(c.n)) \o M("quorum", Nr(c.k)) \o M("elgamal_public_key", T(c.pk)) \o M("commitment_hash", T(c.com)) \o M("manifest_hash", T(c.mh))
    \o M("crypto_base_hash", T(c.base)) \o M("crypto_extended_base_hash", T(c.xbase))
    \o Dft(v, "configuration", c.over /\ c.max = "1000000", Obj(v, M("allow_overvotes", Tf(c.over)) \o M("max_votes", Nr(c.max))))
    \o Opt0(v, "extended_data", c.ext = <<>>, Obj("", FlattenSeq(MapSeq(c.ext, LAMBDA x : M(x.k, T(x.v))))), Obj("", <<>>)))
DeviceD(v, d) == Obj(v, M("device_id", Nr(d.dev)) \o M("session_id", Nr(d.ses)) \o M("launch_code", Nr(d.launch)) \o M("location", T(d.loc)))
ConstantsD == Obj("", M("large_prime", T(P)) \o M("small_prime", T(Q)) \o M("cofactor", T(IDiv(ISub(P, "01"), Q))) \o M("generator", T(G)))

\* ---- ballots
PlainD(v, b) == Obj(v, M("object_id", T(b.id)) \o M("style_id", T(b.style)) \o M("contests", Arr(MapSeq(b.contests, LAMBDA c : Obj(v, M("object_id", T(c.id))
    \o M("ballot_selections", Arr(MapSeq(c.sel, LAMBDA s : Obj(v, M("object_id", T(s.id)) \o M("vote", Nr(DStr(s.vote)))
        \o Dft(v, "is_placeholder_selection", ~s.ph, Tf(s.ph)) \o Dft(v, "write_in", s.wi = "", T(s.wi)))))))))))
CompactPlainD(v, k) == Obj(v, M("object_id", T(k.id)) \o M("style_id", T(k.style)) \o M("selections", Arr(MapSeq(k.votes, LAMBDA x : Nr(DStr(x))))) \o M("writeins", Arr(MapSeq(k.wi, T))))
CompactD(v, k) == Obj(v, M("plaintext", CompactPlainD(v, k.plain)) \o M("code_seed", T(k.seed)) \o M("code", T(k.code)) \o M("nonce", T(k.nonce[1])) \o M("timestamp", Nr(k.ts))
    \o M("ballot_box_state", Nr(DStr(k.state))))
PairD(v, c) == Obj(v, M("pad", T(c[1])) \o M("data", T(c[2])))
NonceM(v, w, n) == IF w THEN M("nonce", T(n[1])) ELSE IF v = "null" THEN M("nonce", Nil) ELSE <<>>
CipherSelD(v, w, s) == LET p == s.proof[1] IN Obj(v, M("object_id", T(s.id)) \o M("sequence_order", Nr(s.seq)) \o M("description_hash", T(s.dh)) \o M("ciphertext", PairD(v, s.c))
    \o M("is_placeholder_selection", Tf(s.ph)) \o M("crypto_hash", T(s.hash)) \o NonceM(v, w, s.nonce)
    \o M("proof", Obj(v, M("proof_zero_pad", T(p.a0)) \o M("proof_zero_data", T(p.b0)) \o M("proof_one_pad", T(p.a1)) \o M("proof_one_data", T(p.b1))
        \o M("proof_zero_challenge", T(p.c0)) \o M("proof_one_challenge", T(p.c1)) \o M("challenge", T(p.c)) \o M("proof_zero_response", T(p.v0)) \o M("proof_one_response", T(p.v1)))))
CipherContestD(v, w, c) == LET p == c.proof[1] h == c.he[1] IN Obj(v, M("object_id", T(c.id)) \o M("sequence_order", Nr(c.seq)) \o M("description_hash", T(c.dh))
    \o M("ballot_selections", Arr(MapSeq(c.sel, LAMBDA s : CipherSelD(v, w, s)))) \o M("ciphertext_accumulation", PairD(v, c.acc)) \o M("crypto_hash", T(c.hash)) \o NonceM(v, w, c.nonce)
    \o M("proof", Obj(v, M("pad", T(p.a)) \o M("data", T(p.b)) \o M("challenge", T(p.c)) \o M("response", T(p.v)) \o M("constant", Nr(p.k))))
    \o M("extended_data", Obj(v, M("pad", T(h.pad)) \o M("data", T(h.data)) \o M("mac", T(h.mac)))))
CipherMs(v, w, b) == M("object_id", T(b.id)) \o M("style_id", T(b.style)) \o M("manifest_hash", T(b.mh)) \o M("code_seed", T(b.seed)) \o M("code", T(b.code)) \o M("timestamp", Nr(b.ts))
    \o M("crypto_hash", T(b.hash)) \o NonceM(v, w, b.nonce) \o M("contests", Arr(MapSeq(b.contests, LAMBDA c : CipherContestD(v, w, c))))
CipherD(v, w, b) == Obj(v, CipherMs(v, w, b))
SubmittedD(v, b, state) == Obj(v, CipherMs(v, FALSE, b) \o M("state", Nr(DStr(state))))

\* ---- what is not a document of a kind: one member changed (new: gone, or a value; f: a number that is not an integer)
Ends(p, x) == LET n == TLen(p) k == TLen(x) IN n >= k /\ TSub(p, n - k + 1, n) = x
IsItem(p) == \E k \in 0..40 : Ends(p, "#" \o ToString(k))
Tag(v) == IF TLen(v) < 2 THEN v ELSE TSub(v, 1, 2)
Val(v) == TSub(v, 3, TLen(v))
InExt(kind, p) == kind = "cx" /\ TContains(p, "/extended_data")
Class(kind, p, old) ==
    CASE p = "/spec_version" \/ InExt(kind, p) \/ TContains(p, "/x_member_of_another_version") -> "any"
      [] Tag(old) = "n:" -> "num"
      [] Tag(old) = "b:" -> "flag"
      [] Tag(old) # "t:" -> "any"
      [] kind = "mf" /\ p \in {"/start_date", "/end_date"} -> "date"
      [] kind \in {"b", "s"} /\ (Ends(p, "/extended_data/data") \/ Ends(p, "/extended_data/mac")) -> "bytes"
      [] kind \in {"b", "s", "cx"} /\ (Ends(p, "pad") \/ Ends(p, "data") \/ Ends(p, "/elgamal_public_key")) -> "p"
      [] kind \in {"b", "s", "k", "cx", "im"} /\ (\E x \in {"_hash", "/code", "/code_seed", "/nonce", "challenge", "response"} : Ends(p, x)) -> "q"
      [] OTHER -> "text"
MayLack(kind, p) ==
    CASE kind \in {"mf", "im"} -> (\E x \in {"/party_id", "/image_uri", "/is_write_in", "/abbreviation", "/color", "/logo_uri", "/contact_information/name"} : Ends(p, x))
                                 \/ (kind = "mf" /\ Ends(p, "/votes_allowed"))
      [] kind = "p" -> Ends(p, "/is_placeholder_selection") \/ Ends(p, "/write_in")
      [] kind \in {"b", "s"} -> Ends(p, "/nonce")
      [] OTHER -> FALSE
IsState(kind, p) == (kind = "s" /\ p = "/state") \/ (kind = "k" /\ p = "/ballot_box_state")
HexText(x) == \A i \in 1..TLen(x) : TContains("0123456789abcdefABCDEF", TSub(x, i, i))
NotDates == <<"", "yesterday", "2021-13-01T00:00:00Z", "2021-02-30T00:00:00Z", "12:00:00", "2021-03-01", "2021-03-01 08:00:00", "2021-03-01T25:00:00Z", "1614585600">>
Defect(kind, p, old, new) == LET c == Class(kind, p, old) IN
    CASE c = "any" -> FALSE
      [] new = "gone" -> ~IsItem(p) /\ ~MayLack(kind, p)
      [] new = "null" -> ~MayLack(kind, p)
      [] c = "num" -> ~(Tag(new) = "n:" /\ TSub(new, 3, 3) # "-") \/ (IsState(kind, p) /\ new \notin {"n:1", "n:2", "n:999"})
      [] c = "flag" -> Tag(new) # "b:"
      [] Tag(new) # "t:" -> TRUE
      [] c = "date" -> \E i \in DOMAIN NotDates : Val(new) = NotDates[i]
      [] c = "bytes" -> ~HexText(Val(new)) \/ (TLen(Val(new)) % 2) = 1
      [] c \in {"p", "q"} -> Val(new) # "" /\ (~HexText(Val(new)) \/ ILt(IF c = "p" THEN P ELSE Q, Val(new)))
      [] OTHER -> FALSE
NotHex == <<"XYZ", "0G", "-1", "0x1F", "1F ", "1.5", "12 34", "+7", "FFZ">>
\* changes worth trying at a member
Changes(kind, p, old) ==
    CASE Class(kind, p, old) = "num" -> <<"gone", "null", "t:1", "t:", "b:true", "n:-1", "n:-9223372036854775808", "f:1.5", "f:0.25", "f:18446744073709551616", "f:1e30", "f:-0.5">> \o (IF IsState(kind, p) THEN <<"n:0", "n:3", "n:4294967297", "n:18446744073709551615">> ELSE <<>>)
      [] Class(kind, p, old) = "flag" -> <<"gone", "null", "t:true", "t:", "n:1", "n:0">>
      [] Class(kind, p, old) = "text" -> <<"gone", "null", "n:7", "b:false", "[]", "{}">>
      [] Class(kind, p, old) = "date" -> <<"gone", "null", "n:1614585600">> \o MapSeq(NotDates, LAMBDA x : "t:" \o x)
      [] Class(kind, p, old) = "bytes" -> <<"gone", "null", "n:7", "t:ABC", "t:" \o Val(old) \o "0", "t:" \o TSub(old, 4, TLen(old))>> \o MapSeq(NotHex, LAMBDA x : "t:" \o x)
      [] Class(kind, p, old) = "p" -> <<"gone", "null", "n:7", "t:" \o IAdd(P, "01"), "t:1" \o P, "t:" \o Val(old) \o "G">> \o MapSeq(NotHex, LAMBDA x : "t:" \o x)
      [] Class(kind, p, old) = "q" -> <<"gone", "null", "n:7", "t:" \o IAdd(Q, "01"), "t:1" \o Q, "t:" \o Val(old) \o "G">> \o MapSeq(NotHex, LAMBDA x : "t:" \o x)
      [] OTHER -> <<>>
\* the same for the objects and the lists of objects in a document
Starts(p, x) == LET n == TLen(p) k == TLen(x) IN n >= k /\ TSub(p, 1, k) = x
Inner(d) == UNION {LET q == d[i][1] IN {TSub(q, 1, k - 1) : k \in {k \in 1..TLen(q) : TSub(q, k, k) \in {"/", "#"}}} : i \in DOMAIN d}
IsObj(d, p) == \E i \in DOMAIN d : Starts(d[i][1], p \o "/")
IsObjs(d, p) == \E i \in DOMAIN d : Starts(d[i][1], p \o "#0/")
MayLackObj(kind, p) == p = "" \/ (\E x \in {"/name", "/contact_information", "/ballot_title", "/ballot_subtitle", "/configuration"} : Ends(p, x))
InnerChanges == <<"gone", "null", "t:x", "n:3", "b:true", "[]">>
InnerDefect(kind, d, p, new) ==
    CASE InExt(kind, p) \/ TContains(p, "/x_member_of_another_version") -> FALSE
      [] IsObj(d, p) -> IF new = "gone" THEN ~IsItem(p) /\ ~MayLackObj(kind, p) ELSE IF new = "null" THEN ~MayLackObj(kind, p) ELSE new \in {"t:x", "n:3", "b:true", "[]"}
      [] IsObjs(d, p) -> new \in {"t:x", "n:3", "b:true"}
      [] OTHER -> FALSE
DefectAt(kind, d, p, new) == IF \E i \in DOMAIN d : d[i][1] = p THEN \E i \in DOMAIN d : d[i][1] = p /\ Defect(kind, p, d[i][2], new) ELSE InnerDefect(kind, d, p, new)
DefectsOf(kind, d) == FlattenSeq([i \in DOMAIN d |-> LET cs == Changes(kind, d[i][1], d[i][2]) IN SelectSeq([k \in DOMAIN cs |-> <<d[i][1], cs[k]>>], LAMBDA x : Defect(kind, x[1], d[i][2], x[2]))])
InnerDefectsOf(kind, d) == LET ps == SetToSeq(Inner(d)) IN FlattenSeq([i \in DOMAIN ps |-> SelectSeq([k \in DOMAIN InnerChanges |-> <<ps[i], InnerChanges[k]>>], LAMBDA x : InnerDefect(kind, d, x[1], x[2]))])

SameDoc(x, y) == Len(x) = Len(y) /\ Rng(x) = Rng(y)
=============================================================================
