------------------------------ MODULE Manifest ------------------------------
(***************************************************************************)
(* The election manifest: its content, hash, validity, the internal form   *)
(* with placeholders, and the mapping from ballot styles to contests; the  *)
(* election context and the encryption device.                             *)
(*   text     : <<[v, l], ...>>              (value, language)             *)
(*   contact  : [name, addr, email, phone]   (email, phone: <<[a, v]..>>)  *)
(*   manifest : [scope, type, start, end, gps, parties, cands, contests,   *)
(*               styles, name, contact]       options are <<>> or <<x>>    *)
(* Sequence orders are decimal texts, because they have 64 bits.           *)
(***************************************************************************)
EXTENDS EGHash, FiniteSets, TLC

TypeNames == << "unknown", "general", "partisanPrimaryClosed", "partisanPrimaryOpen", "primary", "runoff", "special", "other" >>
UnitNames == << "unknown", "ballotBatch", "ballotStyleArea", "borough", "city", "cityCouncil", "combinedPrecinct", "congressional",
    "country", "county", "countyCouncil", "dropBox", "judicial", "municipality", "polling_place", "precinct", "school", "special",
    "splitPrecinct", "state", "stateHouse", "stateSenate", "township", "utility", "village", "voteCenter", "ward", "water", "other" >>
VoteNames == << "unknown", "one_of_m", "approval", "borda", "cumulative", "majority", "n_of_m", "plurality", "proportional", "range",
    "rcv", "super_majority", "other" >>

\* ---- hashes
AnnHash(x)   == H(<<TS(x.a), TS(x.v)>>)
LangHash(x)  == H(<<TS(x.v), TS(x.l)>>)
TextHash(t)  == H(<<TL(MapSeq(t, LangHash))>>)
OptText(o)   == IF o = <<>> THEN NullText ELSE TextHash(o[1])
ContactHash(c) == H(<<TS(c.name), TL(MapSeq(c.addr, TS)), TL(MapSeq(c.email, AnnHash)), TL(MapSeq(c.phone, AnnHash))>>)
OptContact(o) == IF o = <<>> THEN NullText ELSE ContactHash(o[1])
UnitHash(g)  == H(<<TS(g.id), TS(g.name), UnitNames[g.type + 1], OptContact(g.contact)>>)
StyleHash(s) == H(<<TS(s.id), TL(MapSeq(s.gps, TS)), TL(MapSeq(s.parties, TS)), TS(s.image)>>)
PartyHash(p) == H(<<TS(p.id), TextHash(p.name), TS(p.ab), TS(p.color), TS(p.logo)>>)
CandHash(c)  == H(<<TS(c.id), OptText(c.name), TS(c.party), TS(c.image)>>)
SelHash(s)   == H(<<TS(s.id), TU(s.seq), TS(s.cand)>>)
ContestHash(c) == H(<<TS(c.id), TU(c.seq), TS(c.dist), VoteNames[c.vv + 1], OptText(c.title), OptText(c.sub), TS(c.name),
                      TU(DStr(c.ne)), TU(DStr(c.va)), TL(MapSeq(c.sel, SelHash))>>)
ManifestHash(m) == H(<<TS(m.scope), TypeNames[m.type + 1], m.start, m.end, OptText(m.name), OptContact(m.contact),
                       TL(MapSeq(m.gps, UnitHash)), TL(MapSeq(m.parties, PartyHash)), TL(MapSeq(m.contests, ContestHash)),
                       TL(MapSeq(m.styles, StyleHash))>>)

\* ---- validity
Rng(s)   == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Rng(s)) = Len(s)
Ids(s)     == MapSeq(s, LAMBDA x : x.id)
Seqs(s)    == MapSeq(s, LAMBDA x : x.seq)
Named(ids) == "" \notin Rng(ids) /\ Distinct(ids)
ContestOk(c) ==
    /\ c.ne <= Len(c.sel)
    /\ c.va = 0 \/ c.ne <= c.va
    /\ Named(Ids(c.sel)) /\ Named(MapSeq(c.sel, LAMBDA x : x.cand)) /\ Distinct(Seqs(c.sel))
ManifestOk(m) ==
    LET units == Rng(Ids(m.gps)) parties == Rng(Ids(m.parties)) IN
    /\ Named(Ids(m.gps)) /\ Named(Ids(m.styles)) /\ Named(Ids(m.parties)) /\ Named(Ids(m.cands)) /\ Named(Ids(m.contests))
    /\ \A i \in DOMAIN m.styles : m.styles[i].gps # <<>> /\ Rng(m.styles[i].gps) \subseteq units
    /\ \A i \in DOMAIN m.cands : m.cands[i].party = "" \/ m.cands[i].party \in parties
    /\ Distinct(Seqs(m.contests))
    /\ \A i \in DOMAIN m.contests : ContestOk(m.contests[i]) /\ m.contests[i].dist \in units

\* ---- ordering and placeholders
BySeq(s) == SortSeq(s, LAMBDA a, b : DLt(a.seq, b.seq))
RECURSIVE DMax(_, _)
DMax(s, acc) == IF s = <<>> THEN acc ELSE DMax(Tail(s), IF DLt(acc, Head(s)) THEN Head(s) ELSE acc)
PlaceholderAt(c, i) == LET q == DAdd(DAdd(DMax(Seqs(c.sel), "0"), "1"), DStr(i)) b == c.id \o "-" \o q IN
    [id |-> b \o "-placeholder", cand |-> b \o "-candidate", seq |-> q]
Placeholders(c) == [i \in 1..c.ne |-> PlaceholderAt(c, i - 1)]

\* ---- the internal manifest, and what a style delivers
Internal(m) == [mh |-> ManifestHash(m), gps |-> m.gps, cands |-> m.cands, styles |-> m.styles,
                contests |-> [i \in DOMAIN m.contests |-> [c |-> m.contests[i], ph |-> Placeholders(m.contests[i])]]]
HasStyle(im, st) == \E i \in DOMAIN im.styles : im.styles[i].id = st
StyleOf(im, st) == LET k == CHOOSE i \in DOMAIN im.styles : im.styles[i].id = st /\ \A j \in 1..(i - 1) : im.styles[j].id # st
                   IN im.styles[k]
StyleRefused(im, st) == ~HasStyle(im, st) \/ StyleOf(im, st).gps = <<>>
InSeqOrder(cs) == SortSeq(cs, LAMBDA a, b : DLt(a.c.seq, b.c.seq))
ContestsFor(im, st) == InSeqOrder(SelectSeq(im.contests, LAMBDA x : x.c.dist \in Rng(StyleOf(im, st).gps)))

\* ---- context and device
BaseHash(n, k, mh) == H(<<P, Q, G, TU(n), TU(k), mh>>)
ExtendedHash(n, k, mh, com) == H(<<BaseHash(n, k, mh), com>>)
DeviceHash(d) == H(<<TU(d.dev), TU(d.ses), TU(d.launch), TS(d.loc)>>)
=============================================================================
