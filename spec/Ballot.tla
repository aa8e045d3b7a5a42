------------------------------- MODULE Ballot -------------------------------
(***************************************************************************)
(* Ballots: what a plaintext ballot means under a manifest, what its       *)
(* encryption consists of, how it is verified, compacted and expanded.     *)
(*   plaintext : [id, style, contests: <<[id, sel: <<[id,vote,ph,wi]>>]>>] *)
(*   encrypted : [id, style, mh, seed, ts, code, nonce, hash, contests],   *)
(*     contest : [id, seq, dh, sel, acc, hash, nonce, proof, he]           *)
(*     selection : [id, seq, dh, c, hash, ph, nonce, proof]                *)
(* An election is [im, pk, s, xbase]: internal manifest, keys, base hash.  *)
(***************************************************************************)
EXTENDS Manifest, NonceDefs, ChaumPedersen, HashedElGamal, SequencesExt

\* ---- the voter's intent
Matching(seq, id) == SelectSeq(seq, LAMBDA x : x.id = id)
NoMark(id) == [id |-> id, vote |-> 0, ph |-> FALSE, wi |-> ""]
FirstOr(seq, dflt) == IF seq = <<>> THEN dflt ELSE seq[1]
\* one mark per option, in sequence order; the first mention counts, unknown entries do not
MarksOf(c, marks) == MapSeq(BySeq(c.sel), LAMBDA s : LET m == FirstOr(Matching(marks, s.id), NoMark(s.id)) IN
                        [id |-> s.id, seq |-> s.seq, cand |-> s.cand, vote |-> m.vote, wi |-> m.wi])
MarksIn(c, ballot) == MarksOf(c, FirstOr(Matching(ballot.contests, c.id), [id |-> c.id, sel |-> <<>>]).sel)
RECURSIVE SumVotes(_)
SumVotes(ms) == IF ms = <<>> THEN 0 ELSE Head(ms).vote + SumVotes(Tail(ms))
Marked(ms) == SelectSeq(ms, LAMBDA m : m.vote >= 1)
Limit(c) == IF c.va = 0 THEN c.ne ELSE c.va
Overvoted(c, ms) == Len(Marked(ms)) > c.ne \/ SumVotes(ms) > Limit(c)
ContestRefused(c, ms) == ~Overvoted(c, ms) /\ \E i \in DOMAIN ms : ms[i].vote > 1
BallotRefused(im, b) ==
    \/ StyleRefused(im, b.style)
    \/ ContestsFor(im, b.style) = <<>>
    \/ \E i \in DOMAIN ContestsFor(im, b.style) : LET c == ContestsFor(im, b.style)[i].c IN ContestRefused(c, MarksIn(c, b))

\* ---- what is encrypted for a contest: every option, then every placeholder
RealVotes(c, ms) == MapSeq(ms, LAMBDA m : IF Overvoted(c, ms) THEN 0 ELSE m.vote)
PlaceVotes(c, ms) == [i \in 1..c.ne |-> IF Overvoted(c, ms) \/ i <= c.ne - SumVotes(ms) THEN 1 ELSE 0]
Votes(c, ms) == RealVotes(c, ms) \o PlaceVotes(c, ms)
Descriptions(x) == BySeq(x.c.sel) \o x.ph

\* ---- the extended record
WriteInSel(im, m) == \E i \in DOMAIN im.cands : im.cands[i].id = m.cand /\ im.cands[i].wi
WriteIns(im, ms) == SortSeq(SelectSeq(Marked(ms), LAMBDA m : WriteInSel(im, m)), LAMBDA a, b : TextLt(a.id, b.id))
\* ms: the marks in the order in which they are reported
RecordText(im, over, ms) ==
    LET wis == WriteIns(im, ms)
        parts == (IF over THEN << "\"error\":\"overvote\"",
                                  "\"error_data\":[" \o TJoin(MapSeq(Marked(ms), LAMBDA m : JsonText(m.id)), ",") \o "]" >> ELSE <<>>)
                 \o (IF wis # <<>> THEN << "\"write_ins\":{" \o TJoin(MapSeq(wis, LAMBDA m : JsonText(m.id) \o ":" \o JsonText(m.wi)), ",") \o "}" >> ELSE <<>>)
    IN IF parts = <<>> THEN "" ELSE "{" \o TJoin(parts, ",") \o "}"
Record(im, c, ms) == RecordText(im, Overvoted(c, ms), ms)
RecordBytes(text) == LET b == TextBytes(text) IN IF BLen(b) > Capacity THEN BSub(b, 1, Capacity) ELSE b

\* ---- nonces
NonceSeed(mh, id, nonce) == H(<<mh, TS(id), nonce>>)
ContestNonce(c, ns) == NonceOf(ContestHash(c), ns, c.seq)
ProofSeed(c, ns) == NonceOf(ContestHash(c), ns, DAdd(c.seq, "1"))
SelNonce(s, cn) == NonceOf(SelHash(s), cn, s.seq)
RecordNonce(cn) == NonceOf(cn, "constant-extended-data", "0")
\* every nonce of a contest
ContestNonces(x, ns) == LET cn == ContestNonce(x.c, ns) IN <<cn, ProofSeed(x.c, ns), RecordNonce(cn)>> \o MapSeq(Descriptions(x), LAMBDA s : SelNonce(s, cn))

\* ---- hashes of encrypted parts
SelectionHash(id, dh, c) == H(<<TS(id), dh, CipherHash(c)>>)
ContestCipherHash(id, dh, hashes) == H(<<TS(id), dh>> \o hashes)
BallotHash(id, mh, hashes) == H(<<TS(id), mh>> \o hashes)
BallotCodeOf(seed, ts, hash) == H(<<seed, TU(ts), hash>>)

\* ---- encryption: everything that is determined by the nonces
EncSelection(s, vote, nonce, pk, ph) ==
    LET ct == Enc(DStr(vote), nonce, pk) IN
    [id |-> s.id, seq |-> s.seq, dh |-> SelHash(s), c |-> ct, hash |-> SelectionHash(s.id, SelHash(s), ct), ph |-> ph, nonce |-> <<nonce>>]
\* selNonces: the nonces of the selections (derived, or taken from precomputed values)
EncContest(el, x, votes, text, ns, selNonces) ==
    LET c == x.c ds == Descriptions(x) cn == ContestNonce(c, ns)
        sels == [i \in DOMAIN ds |-> EncSelection(ds[i], votes[i], selNonces[i], el.pk, i > Len(c.sel))]
        acc == Combine(MapSeq(sels, LAMBDA s : s.c))
    IN [id |-> c.id, seq |-> c.seq, dh |-> ContestHash(c), sel |-> sels, acc |-> acc,
        hash |-> ContestCipherHash(c.id, ContestHash(c), MapSeq(sels, LAMBDA s : s.hash)), nonce |-> <<cn>>,
        proof |-> <<CcSeeded(acc, QSum(selNonces), el.pk, ProofSeed(c, ns), el.xbase, DStr(c.ne))>>,
        he |-> <<HeEncrypt(TextBytes(text), RecordNonce(cn), el.pk, el.xbase, Capacity)>>]
DerivedNonces(x, ns) == MapSeq(Descriptions(x), LAMBDA s : SelNonce(s, ContestNonce(x.c, ns)))
EncBallotContests(el, b, nonce, selNonces) ==
    LET xs == ContestsFor(el.im, b.style) ns == NonceSeed(el.im.mh, b.id, nonce) IN
    [i \in DOMAIN xs |-> LET ms == MarksIn(xs[i].c, b) IN
        EncContest(el, xs[i], Votes(xs[i].c, ms), Record(el.im, xs[i].c, ms), ns, IF selNonces = <<>> THEN DerivedNonces(xs[i], ns) ELSE selNonces[i])]

\* ---- verification, as published
SelValid(s, dh, pk, xb) == /\ s.dh = dh /\ s.hash = SelectionHash(s.id, dh, s.c) /\ s.proof # <<>>
                           /\ DjValid(s.c, pk, xb, s.proof[1])
ContestValid(c, dh, pk, xb) ==
    /\ c.dh = dh /\ c.sel # <<>>
    /\ c.hash = ContestCipherHash(c.id, dh, MapSeq(c.sel, LAMBDA s : s.hash))
    /\ c.acc = Combine(MapSeq(c.sel, LAMBDA s : s.c))
    /\ c.proof # <<>> /\ CcValid(c.acc, pk, xb, c.proof[1])
BallotValid(b, mh, pk, xb) ==
    /\ b.mh = mh /\ b.contests # <<>>
    /\ b.hash = BallotHash(b.id, mh, MapSeq(b.contests, LAMBDA c : c.hash))
    /\ \A i \in DOMAIN b.contests : /\ ContestValid(b.contests[i], b.contests[i].dh, pk, xb)
                                    /\ \A j \in DOMAIN b.contests[i].sel : SelValid(b.contests[i].sel[j], b.contests[i].sel[j].dh, pk, xb)

\* ---- the compact forms
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* all marks of the style's contests, in order
AllMarks(im, b) == Concat(MapSeq(ContestsFor(im, b.style), LAMBDA x : MarksIn(x.c, b)))
CompactPlain(im, b) == [id |-> b.id, style |-> b.style, votes |-> MapSeq(AllMarks(im, b), LAMBDA m : m.vote), wi |-> MapSeq(AllMarks(im, b), LAMBDA m : m.wi)]
Listed(b) == [id |-> b.id, style |-> b.style, votes |-> Concat(MapSeq(b.contests, LAMBDA c : MapSeq(c.sel, LAMBDA s : s.vote))),
              wi |-> Concat(MapSeq(b.contests, LAMBDA c : MapSeq(c.sel, LAMBDA s : s.wi)))]
RECURSIVE Expand(_, _, _)
Expand(xs, votes, wis) == IF xs = <<>> THEN <<>> ELSE LET ds == BySeq(xs[1].c.sel) n == Len(ds) IN
    <<[id |-> xs[1].c.id, sel |-> [i \in 1..n |-> [id |-> ds[i].id, vote |-> votes[i], ph |-> FALSE, wi |-> wis[i]]]]>>
    \o Expand(Tail(xs), SubSeq(votes, n + 1, Len(votes)), SubSeq(wis, n + 1, Len(wis)))
OptionCount(im, st) == Len(Concat(MapSeq(ContestsFor(im, st), LAMBDA x : x.c.sel)))
ExpandRefused(im, k) == StyleRefused(im, k.style) \/ Len(k.votes) < OptionCount(im, k.style) \/ Len(k.wi) < OptionCount(im, k.style)
ExpandPlain(im, k) == [id |-> k.id, style |-> k.style, contests |-> Expand(ContestsFor(im, k.style), k.votes, k.wi)]

\* ---- published forms
NoNonces(b) == [b EXCEPT !.nonce = <<Zero>>, !.contests = MapSeq(b.contests, LAMBDA c :
                   [c EXCEPT !.nonce = <<Zero>>, !.sel = MapSeq(c.sel, LAMBDA s : [s EXCEPT !.nonce = <<Zero>>])])]
Secrets(b) == Rng(b.nonce) \cup UNION {Rng(b.contests[i].nonce) : i \in DOMAIN b.contests}
              \cup UNION {UNION {Rng(b.contests[i].sel[j].nonce) : j \in DOMAIN b.contests[i].sel} : i \in DOMAIN b.contests}
=============================================================================
