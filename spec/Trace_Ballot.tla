---------------------------- MODULE Trace_Ballot ----------------------------
(* Trace specification: one election, its mediators and ballots.            *)
EXTENDS TraceBase, Ballot, Wire
VARIABLES tr, l, why, el, meds, bs, subs, plains, kps, ks, used, pre
vars == <<tr, l, why, el, meds, bs, subs, plains, kps, ks, used, pre>>
Ev == Traces[tr].ev[l + 1]

Contests(b) == ContestsFor(el.im, b.style)
NoProofs(cs) == MapSeq(cs, LAMBDA c : [c EXCEPT !.sel = MapSeq(c.sel, LAMBDA s : [id |-> s.id, seq |-> s.seq, dh |-> s.dh, c |-> s.c, hash |-> s.hash, ph |-> s.ph, nonce |-> s.nonce])])
\* the proof and the record of a contest may also come from precomputed values
NoContestProofs(cs) == MapSeq(cs, LAMBDA c : [id |-> c.id, seq |-> c.seq, dh |-> c.dh, sel |-> c.sel, acc |-> c.acc, hash |-> c.hash, nonce |-> c.nonce])
ShapeOf(d) == MapSeq(d.contests, LAMBDA c : [id |-> c.id, seq |-> c.seq, sel |-> MapSeq(c.sel, LAMBDA s : [id |-> s.id, seq |-> s.seq, ph |-> s.ph])])
ShapeWanted(b) == MapSeq(Contests(b), LAMBDA x : [id |-> x.c.id, seq |-> x.c.seq,
    sel |-> LET ds == Descriptions(x) IN [i \in DOMAIN ds |-> [id |-> ds[i].id, seq |-> ds[i].seq, ph |-> i > Len(x.c.sel)]]])
Decrypts(c, x, ms) == \A j \in DOMAIN c.sel : Dec(c.sel[j].c, el.s) = DStr(Votes(x.c, ms)[j])
Decrypted(d, b) == LET xs == Contests(b) IN \A i \in DOMAIN xs : Decrypts(d.contests[i], xs[i], MarksIn(xs[i].c, b))
RecordOk(c, text) == /\ c.he # <<>> /\ BLen(c.he[1].data) = Capacity + 2 /\ BLen(c.he[1].mac) = 32
                     /\ HeDecrypt(c.he[1], el.s, el.xbase, TRUE) = <<RecordBytes(text)>>
Records(d, b) == LET xs == Contests(b) IN \A i \in DOMAIN xs : RecordOk(d.contests[i], Record(el.im, xs[i].c, MarksIn(xs[i].c, b)))
Observed(d) == MapSeq(d.contests, LAMBDA c : MapSeq(c.sel, LAMBDA s : s.nonce[1]))
\* the encryption of b from the master nonce (selection nonces as observed when precomputed values may have been used)
Wanted(b, nonce, selNonces) == EncBallotContests(el, b, nonce, selNonces)
Consistent(d) == \A i \in DOMAIN d.contests : \A j \in DOMAIN d.contests[i].sel :
    LET s == d.contests[i].sel[j] IN InQ(s.nonce[1]) /\ s.nonce[1] # Zero /\ \E v \in {"0", "1"} : s.c = Enc(v, s.nonce[1], el.pk)

\* which purpose each nonce served: the same nonce never serves two
Owner(d, c, s) == TJoin(<<d.mh, d.id, d.nonce[1], c, s>>, "|")
SelNonceSet(d) == UNION {{<<d.contests[i].sel[j].nonce[1], Owner(d, d.contests[i].id, d.contests[i].sel[j].id)>> : j \in DOMAIN d.contests[i].sel} : i \in DOMAIN d.contests}
MoreNonces(d) == {<<d.contests[i].nonce[1], Owner(d, d.contests[i].id, "")>> : i \in DOMAIN d.contests} \cup {<<d.nonce[1], TJoin(<<"master", d.nonce[1]>>, "|")>>}
\* public values that stand for a nonce: equal ones would show the reuse to everybody
PublicSet(d) == UNION {{<<d.contests[i].he[1].pad, Owner(d, d.contests[i].id, "record")>>, <<d.contests[i].proof[1].a, Owner(d, d.contests[i].id, "proof")>>}
                       \cup UNION {LET s == d.contests[i].sel[j] o == Owner(d, d.contests[i].id, s.id) IN
                             {<<s.c[1], o>>, <<s.proof[1].a0, o \o "|zero">>, <<s.proof[1].a1, o \o "|one">>} : j \in DOMAIN d.contests[i].sel} : i \in DOMAIN d.contests}
AllNonces(d) == SelNonceSet(d) \cup MoreNonces(d) \cup PublicSet(d)
Reused(pairs) == \/ \E p \in pairs : p[1] \in DOMAIN used /\ used[p[1]] # p[2]
                 \/ \E p \in pairs, q \in pairs : p[1] = q[1] /\ p[2] # q[2]
AsFun(pairs) == [n \in {p[1] : p \in pairs} |-> (CHOOSE p \in pairs : p[1] = n)[2]]
Track(pairs) == used' = IF Prop \in {"", "P10", "P20", "P21", "P22"} THEN AsFun(pairs) @@ used ELSE used

Verdict(v, valid) == IF valid THEN v = "true" ELSE v \in {"false", "refused"}
VerdictsOk(e, d, mh, pk, xb) ==
    LET sv == TLCEval(MapSeq(d.contests, LAMBDA c : MapSeq(c.sel, LAMBDA s : SelValid(s, s.dh, pk, xb))))
        cv == TLCEval(MapSeq(d.contests, LAMBDA c : ContestValid(c, c.dh, pk, xb)))
        bv == /\ d.mh = mh /\ d.contests # <<>> /\ d.hash = BallotHash(d.id, mh, MapSeq(d.contests, LAMBDA c : c.hash))
              /\ \A i \in DOMAIN cv : cv[i] /\ \A j \in DOMAIN sv[i] : sv[i][j]
    IN /\ Verdict(e.r.v, bv) /\ Len(e.r.cv) = Len(cv)
       /\ \A i \in DOMAIN cv : Verdict(e.r.cv[i], cv[i]) /\ Len(e.r.sv[i]) = Len(sv[i]) /\ \A j \in DOMAIN sv[i] : Verdict(e.r.sv[i][j], sv[i][j])
AllTrue(e) == e.r.v = "true" /\ Rng(e.r.cv) \subseteq {"true"} /\ \A i \in DOMAIN e.r.sv : Rng(e.r.sv[i]) \subseteq {"true"}

\* ---- encryption of a whole ballot
OnMediator(e) == e.path \in {"med", "medc"}
SeedFor(e) == IF OnMediator(e) THEN meds[e.md] ELSE e.seed
\* this mediator has refused a ballot before
HadRefusal(e) == OnMediator(e) /\ \E i \in 1..l : LET f == Traces[tr].ev[i] IN f.op = "b_enc" /\ ~Ok(f) /\ OnMediator(f) /\ f.md = e.md
\* the C interface has no parameter for the time
Ts(e) == IF "c" \in DOMAIN e.r THEN "0" ELSE e.ts
NonceGiven(e) == ~OnMediator(e) /\ e.nonce # <<>>
\* the nonces of the selections are free when precomputed values may have been used
FreeNonces(e) == pre /\ e.path \in {"med", "direct"} /\ ~NonceGiven(e)
EncC(e) ==
    LET b == e.ballot IN
    IF BallotRefused(el.im, b) THEN Clause("P03", "malformed ballot refused", Refused(e))
    ELSE IF ~Ok(e) THEN ClauseOf({"P01", "P03", "P17"}, "well-formed ballot encrypted", FALSE)
    ELSE LET d == e.r.d IN
         IF ~(d.id = b.id /\ d.style = b.style /\ ShapeOf(d) = ShapeWanted(b)) THEN ClauseOf({"P01", "P10"}, "contests, options and placeholders of the ballot", FALSE)
         ELSE Clause("P01", "decrypted votes and placeholders", Decrypted(d, b))
         \cup Clause("P02", "extended record", Records(d, b))
         \cup Clause("P04", "proofs of the ballot satisfy the equations", BallotValid(d, el.im.mh, el.pk, el.xbase))
         \cup ClauseOf({"P10"}, "master nonce", d.nonce # <<>> /\ InQ(d.nonce[1]) /\ (IF NonceGiven(e) THEN d.nonce = e.nonce ELSE d.nonce[1] \notin DOMAIN used))
         \cup ClauseOf({"P10"}, "every value derived from the master nonce", 
               IF FreeNonces(e) THEN NoContestProofs(NoProofs(d.contests)) = NoContestProofs(Wanted(b, d.nonce[1], Observed(d)))
               ELSE NoProofs(d.contests) = Wanted(b, d.nonce[1], <<>>))
         \cup ClauseOf({"P10", "P20"}, "no nonce reused", ~Reused(AllNonces(d)))
         \cup ClauseOf({"P20"}, "ciphertexts consistent with their nonces", Consistent(d))
         \cup ClauseOf({"P11"} \cup (IF HadRefusal(e) THEN {"P03"} ELSE {}), "seed of the chain", d.seed = SeedFor(e))
         \cup ClauseOf({"P11"}, "ballot code", d.code = BallotCodeOf(d.seed, d.ts, d.hash))
         \cup ClauseOf({"P11", "P12"}, "ballot hash", d.mh = el.im.mh /\ d.hash = BallotHash(d.id, d.mh, MapSeq(d.contests, LAMBDA c : c.hash)))
         \cup ClauseOf({"P11"}, "timestamp", IF OnMediator(e) \/ Ts(e) = "0" THEN d.ts # "0" ELSE d.ts = Ts(e))
\* ---- compact encryption
CompactCode(k, b) == BallotCodeOf(k.seed, k.ts, BallotHash(b.id, el.im.mh, MapSeq(Wanted(b, k.nonce[1], <<>>), LAMBDA c : c.hash)))
KEncC(e) ==
    LET b == e.ballot IN
    IF BallotRefused(el.im, b) THEN Clause("P03", "malformed ballot refused", Refused(e))
    ELSE IF ~Ok(e) THEN ClauseOf({"P01", "P03", "P17"}, "well-formed ballot encrypted", FALSE)
    ELSE LET k == e.r.k IN
         ClauseOf({"P17"}, "compact plaintext", k.id = b.id /\ k.plain = CompactPlain(el.im, b) /\ k.state = 999)
         \cup ClauseOf({"P10"}, "master nonce", k.nonce # <<>> /\ InQ(k.nonce[1]) /\ (IF NonceGiven(e) THEN k.nonce = e.nonce ELSE k.nonce[1] \notin DOMAIN used))
         \cup ClauseOf({"P11"} \cup (IF HadRefusal(e) THEN {"P03"} ELSE {}), "seed of the chain", k.seed = SeedFor(e))
         \cup ClauseOf({"P11", "P17", "P10"}, "code of the compact ballot", k.code = CompactCode(k, b))
         \cup ClauseOf({"P11"}, "timestamp", IF OnMediator(e) \/ Ts(e) = "0" THEN k.ts # "0" ELSE k.ts = Ts(e))
CodeIn(e) == IF e.path = "med" THEN e.r.d.code ELSE e.r.k.code
IsCompact(e) == e.path \in {"compact", "medc"}

\* ---- contest and selection entry points
AsMarks(c, marks) == MapSeq(marks, LAMBDA m : [id |-> m.id, vote |-> m.vote, wi |-> m.wi, cand |-> FirstOr(Matching(c.sel, m.id), [cand |-> ""]).cand])
ContestOf(id) == el.im.contests[CHOOSE i \in DOMAIN el.im.contests : el.im.contests[i].c.id = id]
ContestC(e) ==
    LET x == ContestOf(e.of) ms == MarksOf(x.c, e.contest.sel) IN
    IF e.contest.id # x.c.id \/ Len(e.contest.sel) > Len(x.c.sel) \/ ContestRefused(x.c, ms)
    THEN Clause("P03", "malformed contest refused", Refused(e))
    ELSE IF ~Ok(e) THEN ClauseOf({"P01", "P03"}, "well-formed contest encrypted", FALSE)
    ELSE LET d == e.r.d text == RecordText(el.im, Overvoted(x.c, ms), AsMarks(x.c, e.contest.sel)) IN
         Clause("P01", "votes of the contest", Len(d.sel) = Len(Descriptions(x)) /\ Decrypts(d, x, ms))
         \cup Clause("P02", "extended record of the contest", RecordOk(d, text))
         \cup Clause("P04", "contest verifies", /\ ContestValid(d, d.dh, el.pk, el.xbase) /\ e.r.v
                        /\ \A j \in DOMAIN d.sel : SelValid(d.sel[j], d.sel[j].dh, el.pk, el.xbase))
         \cup Clause("P10", "contest derived from its nonce", Len(d.sel) = Len(Descriptions(x)) /\
                        IF pre THEN NoContestProofs(NoProofs(<<d>>)) = NoContestProofs(<<EncContest(el, x, Votes(x.c, ms), text, e.ns, MapSeq(d.sel, LAMBDA s : s.nonce[1]))>>)
                        ELSE NoProofs(<<d>>)[1] = EncContest(el, x, Votes(x.c, ms), text, e.ns, DerivedNonces(x, e.ns)))
SelC(e) ==
    LET x == ContestOf(e.of) ds == Descriptions(x) s == ds[CHOOSE i \in DOMAIN ds : ds[i].id = e.sel] IN
    IF e.selection.id # s.id \/ e.selection.vote > 1 THEN Clause("P03", "malformed selection refused", Refused(e))
    ELSE IF ~Ok(e) THEN ClauseOf({"P01", "P03"}, "well-formed selection encrypted", FALSE)
    ELSE LET d == e.r.d IN
         Clause("P01", "vote of the selection", Dec(d.c, el.s) = DStr(e.selection.vote) /\ d.ph = e.isph)
         \cup Clause("P04", "selection verifies", SelValid(d, d.dh, el.pk, el.xbase) /\ e.r.v)
         \cup Clause("P10", "selection derived from its nonce",
                [id |-> d.id, seq |-> d.seq, dh |-> d.dh, c |-> d.c, hash |-> d.hash, ph |-> d.ph, nonce |-> d.nonce]
                = EncSelection(s, e.selection.vote, IF pre THEN d.nonce[1] ELSE SelNonce(s, e.ns), el.pk, e.isph))
PlainOkC(e) == LET n == Len(Marked(e.contest.sel)) over == n > e.ne \/ SumVotes(e.contest.sel) > (IF e.va = 0 THEN e.ne ELSE e.va) IN
    Clause("P03", "validity of a plaintext contest", Ok(e) /\
       CASE e.contest.id # e.id -> e.r.v = 2
         [] e.contest.id = e.id /\ Len(e.contest.sel) > e.ns -> e.r.v = 3
         [] OTHER -> e.r.v = (IF ~over THEN 0 ELSE IF e.sup THEN 1 ELSE 2))
    \cup Clause("P03", "validity of a plaintext contest as a truth value", "vb" \in DOMAIN e.r => e.r.vb = (e.contest.id = e.id /\ Len(e.contest.sel) <= e.ns /\ ~over))
    \cup Clause("P03", "validity of plaintext selections", Ok(e) /\ e.r.sv = MapSeq(e.contest.sel, LAMBDA s : s.id = e.sid /\ s.vote <= 1))

\* ---- registers
Put(v, n, x) == v' = (n :> x) @@ v
BallotOf(n) == IF n \in DOMAIN subs THEN subs[n].d ELSE bs[n]
OrOwn(o, own) == IF o = <<>> THEN own ELSE o[1]
\* the ballot, its contests and its options, each assigned over another of its kind
AssignedOk(e, d) == "asg" \in DOMAIN e.r => e.r.asg = <<d, d.contests, MapSeq(d.contests, LAMBDA c : c.sel)>>
Same(e, d) == Ok(e) /\ e.r.d = d
\* d is b without its nonces
Stripped(d, b) == Secrets(d) \subseteq {Zero} /\ NoNonces(d) = NoNonces(b)
\* one part of a compact ballot replaced
Edited(k, e) == LET p == e.part one == One IN [k EXCEPT !.state = e.state,
    !.plain.votes = IF p = "vote" THEN [@ EXCEPT ![e.i] = IF @ = 0 THEN 1 ELSE 0] ELSE @, !.plain.wi = IF p = "wi" THEN [@ EXCEPT ![e.i] = @ \o "x"] ELSE @,
    !.plain.id = IF p = "id" THEN @ \o "x" ELSE @, !.id = IF p = "id" THEN @ \o "x" ELSE @, !.seed = IF p = "seed" THEN QAdd(@, one) ELSE @,
    !.code = IF p = "code" THEN QAdd(@, one) ELSE @, !.ts = IF p = "ts" THEN DAdd(@, "1") ELSE @, !.nonce = IF p = "nonce" THEN <<QAdd(@[1], one)>> ELSE @]
ExpandC(e) ==
    LET k == ks[e.n] IN
    IF ExpandRefused(el.im, k.plain) THEN Clause("P17", "expansion of too few votes refused", Refused(e))
    ELSE LET b == ExpandPlain(el.im, k.plain) IN
    IF BallotRefused(el.im, b) THEN ClauseOf({"P17", "P03"}, "expansion of a malformed ballot refused", Refused(e))
    ELSE IF k.code # CompactCode(k, b) THEN Clause("P17", "expansion that does not match its code refused", Refused(e))
    ELSE IF ~Ok(e) THEN ClauseOf({"P17"}, "expansion", FALSE)
    ELSE LET d == e.r.d IN
         Clause("P17", "expanded ballot is identical", /\ NoProofs(d.contests) = Wanted(b, k.nonce[1], <<>>)
               /\ d.code = k.code /\ d.ts = k.ts /\ d.seed = k.seed /\ d.nonce = k.nonce /\ d.id = k.plain.id /\ d.style = k.plain.style /\ d.mh = el.im.mh
               /\ d.hash = BallotHash(d.id, d.mh, MapSeq(d.contests, LAMBDA c : c.hash)))
         \cup ClauseOf({"P17", "P04"}, "expanded proofs verify", e.r.v /\ BallotValid(d, el.im.mh, el.pk, el.xbase))
         \cup Clause("P01", "expanded ballot decrypts to the votes", ShapeOf(d) = ShapeWanted(b) /\ Decrypted(d, b))
         \cup Clause("P02", "expanded ballot keeps the records", ShapeOf(d) = ShapeWanted(b) /\ Records(d, b))

\* ---- published forms
Long(x) == TLen(x) >= 16
Reveals(e, x) == \E t \in Rng(e.r.texts) : TContains(t, x)
PublishC(e) ==
    LET d == IF e.kind = "submitted" THEN subs[e.n].full ELSE bs[e.n] IN
    IF ~Ok(e) THEN ClauseOf({"P18", "P19"}, "serialization", FALSE)
    ELSE IF e.kind = "complete" THEN Clause("P19", "complete form keeps the nonces", \A x \in Secrets(d) : Long(x) => Reveals(e, x))
    ELSE Clause("P19", "no key of a nonce", \A k \in Rng(e.r.keys) : ~TContains(LowerText(k), "nonce"))
         \cup Clause("P19", "no value of a nonce", \A x \in Secrets(d) : Long(x) => ~Reveals(e, x))

\* d is b with the ten edits of Extreme in Gen_Ballot
AsSets(d) == [d EXCEPT !.contests = {[c EXCEPT !.sel = Rng(c.sel)] : c \in Rng(d.contests)}]
EditedOk(d, b, ed) == LET v(i) == ed[i].v IN
    AsSets(d) = AsSets([b EXCEPT !.ts = v(1), !.contests[1].seq = v(2), !.contests[1].proof[1].k = v(3), !.contests[1].sel[1].seq = v(4), !.contests[1].proof[1].v = v(5),
                  !.contests[1].sel[1].proof[1].a1 = v(6), !.code = v(7), !.contests[1].sel[1].nonce = <<v(8)>>, !.id = v(9), !.contests[1].sel[1].ph = (v(10) = "1")])
\* ---- documents
DocOp(e) ==
    CASE e.op = "w_cipher" -> SameDoc(e.r.doc, CipherD("", e.nonces, bs[e.n]))
      [] e.op = "w_sub" -> SameDoc(e.r.doc, SubmittedD("", subs[e.n].d, subs[e.n].state))
      [] e.op = "w_plain" -> SameDoc(e.r.doc, PlainD("", plains[e.n]))
      [] e.op = "w_kp" -> SameDoc(e.r.doc, CompactPlainD("", kps[e.n]))
      [] e.op = "w_k" -> SameDoc(e.r.doc, CompactD("", ks[e.n]))
ReadOp(e) ==
    CASE e.op \in {"p_read", "kp_read", "k_read"} -> e.r.d = e.x
      [] e.op = "b_read" -> IF e.nonces THEN e.r.d = e.x ELSE Stripped(e.r.d, e.x)
      [] e.op = "s_read" -> Stripped(e.r.d, e.x) /\ e.r.state = e.state
\* documents that are none are refused, each of them, whatever is wrong
SpoilC(e) == ClauseOf({"P26"}, "document without the defect is read", Ok(e) /\ e.r.good)
    \cup ClauseOf({"P26"}, "malformed document refused", Ok(e) /\ \A k \in Rng(e.r.acc) : ~DefectAt(e.kind, e.doc, e.what[k][1], e.what[k][2]))
    \cup ClauseOf({"P26"}, "damaged document refused", Ok(e) /\ e.r.racc = <<>> /\ e.r.odd = <<>>)
Step(e) ==
    \/ e.op = "spoil" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>> /\ why' = SpoilC(e)
    \/ e.op = "b_setup" /\ el' = [im |-> Internal(e.m), pk |-> e.pk, s |-> e.s, xbase |-> ExtendedHash(e.n, e.k, ManifestHash(e.m), e.com)]
       /\ UNCHANGED <<meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P12"}, "election", Ok(e) /\ e.r.mh = el'.im.mh /\ e.r.xbase = el'.xbase) \cup ClauseOf({"P01"}, "election can be set up", Ok(e))
    \/ e.op = "b_med" /\ Put(meds, e.n, DeviceHash(e.dev)) /\ UNCHANGED <<el, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P11"}, "device hash", Ok(e) /\ e.r.hash = DeviceHash(e.dev))
    \/ e.op = "b_pre" /\ pre' = TRUE /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used>>
       /\ why' = ClauseOf({"P20"}, "buffers filled", Ok(e) /\ e.r.n <= e.size)
    \/ e.op = "b_enc" /\ ~IsCompact(e) /\ why' = EncC(e) /\ UNCHANGED <<el, subs, plains, kps, ks, pre>>
       /\ (IF Ok(e) THEN Put(bs, e.n, e.r.d) /\ Track(AllNonces(e.r.d)) /\ (IF e.path = "med" THEN meds' = [meds EXCEPT ![e.md] = e.r.d.code] ELSE UNCHANGED meds)
           ELSE UNCHANGED <<bs, used, meds>>)
    \/ e.op = "b_enc" /\ IsCompact(e) /\ why' = KEncC(e) /\ UNCHANGED <<el, subs, plains, kps, bs, pre>>
       /\ (IF Ok(e) THEN Put(ks, e.n, e.r.k) /\ Track({<<e.r.k.nonce[1], TJoin(<<"master", e.r.k.nonce[1]>>, "|")>>})
                         /\ (IF e.path = "medc" THEN meds' = [meds EXCEPT ![e.md] = e.r.k.code] ELSE UNCHANGED meds)
           ELSE UNCHANGED <<ks, used, meds>>)
    \/ e.op = "b_contest" /\ why' = ContestC(e) /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
    \/ e.op = "b_sel" /\ why' = SelC(e) /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
    \/ e.op = "b_plainok" /\ why' = PlainOkC(e) /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
    \/ e.op = "b_valid" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P05"}, "verdict on a ballot", Ok(e) /\ VerdictsOk(e, BallotOf(e.n), OrOwn(e.mh, el.im.mh), OrOwn(e.pk, el.pk), OrOwn(e.xb, el.xbase)))
                 \cup ClauseOf({"P04"}, "honest ballot accepted", (e.honest /\ e.mh = <<>> /\ e.pk = <<>> /\ e.xb = <<>>) => Ok(e) /\ AllTrue(e))
    \/ e.op = "b_validdh" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P05"}, "verdict under a description hash", Ok(e) /\ LET d == BallotOf(e.n) IN \A i \in DOMAIN d.contests :
             /\ Verdict(e.r.cv[i], ContestValid(d.contests[i], e.dh, el.pk, el.xbase))
             /\ \A j \in DOMAIN d.contests[i].sel : Verdict(e.r.sv[i][j], SelValid(d.contests[i].sel[j], e.dh, el.pk, el.xbase)))
    \/ e.op = "b_tamper" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P05"}, "verdict on an altered ballot", ~Crashed(e) /\ (Ok(e) => VerdictsOk(e, e.r.d, el.im.mh, el.pk, el.xbase)))
    \/ e.op = "b_make" /\ UNCHANGED <<el, meds, subs, plains, kps, ks, used, pre>>
       /\ (IF Ok(e) THEN Put(bs, e.to, e.r.d) ELSE UNCHANGED bs)
       /\ why' = ClauseOf({"P04", "P11", "P05"}, "ballot made of contests", Ok(e) /\ LET o == BallotOf(e.n) d == e.r.d
                  cs == BySeq(MapSeq(e.order, LAMBDA i : o.contests[i])) hash == BallotHash(o.id, o.mh, MapSeq(cs, LAMBDA c : c.hash)) seed == OrOwn(e.seed, o.mh) IN
              d = [o EXCEPT !.contests = cs, !.hash = hash, !.seed = seed, !.ts = e.ts, !.code = OrOwn(e.code, BallotCodeOf(seed, e.ts, hash))])
    \/ e.op = "b_more" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P10", "P05"}, "aggregates of a ballot", Ok(e) /\ LET d == bs[e.n] IN
              /\ e.r.ns = NonceSeed(d.mh, d.id, d.nonce[1]) /\ e.r.nss = e.r.ns
              /\ e.r.cs = MapSeq(d.contests, LAMBDA c : [agg |-> QSum(MapSeq(c.sel, LAMBDA s : s.nonce[1])), acc |-> Combine(MapSeq(c.sel, LAMBDA s : s.c))]))
    \/ e.op = "b_code" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P11"}, "ballot code", Ok(e) /\ e.r.v = BallotCodeOf(e.prev, e.ts, e.h))
    \/ e.op = "b_copy" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P18"}, "copies of a ballot", Ok(e) /\ LET d == bs[e.n] IN e.r.one = d /\ e.r.two = d /\ e.r.after = d /\ e.r.contests = d.contests
                                                          /\ e.r.sels = MapSeq(d.contests, LAMBDA c : c.sel) /\ AssignedOk(e, d))
    \/ e.op = "b_trip" /\ UNCHANGED <<el, meds, subs, plains, kps, ks, used, pre>> /\ (IF Ok(e) THEN Put(bs, e.to, e.r.d) ELSE UNCHANGED bs)
       /\ why' = ClauseOf({"P18"}, "ballot read back", Ok(e) /\ e.r.v /\ (IF e.nonces THEN e.r.d = bs[e.n] ELSE Stripped(e.r.d, bs[e.n])))
                 \cup ClauseOf({"P19"}, "nonces of a ballot read back", Ok(e) /\ (IF e.nonces THEN e.r.d = bs[e.n] ELSE Stripped(e.r.d, bs[e.n])))
                 \cup ClauseOf({"P04"}, "ballot read back is accepted", Ok(e) /\ e.r.v)
    \/ e.op = "b_edit" /\ UNCHANGED <<el, meds, subs, plains, kps, ks, used, pre>> /\ (IF Ok(e) THEN Put(bs, e.to, e.r.d) ELSE UNCHANGED bs)
       /\ why' = ClauseOf({"P18"}, "ballot with other values is read", Ok(e) /\ EditedOk(e.r.d, bs[e.n], e.edits))
    \/ e.op = "b_again" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>> /\ why' = ClauseOf({"P18"}, "ballot read back", Same(e, bs[e.n]))
    \/ e.op = "b_submit" /\ UNCHANGED <<el, meds, bs, plains, kps, ks, used, pre>>
       /\ (IF Ok(e) THEN Put(subs, e.to, [d |-> e.r.d, state |-> e.state, full |-> bs[e.n]]) ELSE UNCHANGED subs)
       /\ why' = ClauseOf({"P19", "P18"}, "submitted ballot", Ok(e) /\ NoNonces(e.r.d) = NoNonces(bs[e.n]) /\ e.r.state = e.state /\ e.r.after = bs[e.n])
    \/ e.op = "s_trip" /\ UNCHANGED <<el, meds, bs, plains, kps, ks, used, pre>>
       /\ (IF Ok(e) THEN Put(subs, e.to, [d |-> e.r.d, state |-> e.r.state, full |-> subs[e.n].full]) ELSE UNCHANGED subs)
       /\ why' = ClauseOf({"P19", "P18"}, "submitted ballot read back", Ok(e) /\ Stripped(e.r.d, subs[e.n].d) /\ e.r.state = subs[e.n].state /\ e.r.v)
    \/ e.op = "b_publish" /\ why' = PublishC(e) /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
    \/ e.op = "st_names" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P19"}, "names of states", Ok(e) /\ e.r.name = (CASE e.state = 1 -> "cast" [] e.state = 2 -> "spoiled" [] e.state = 999 -> "unknown")
                                                    /\ e.r.back = (CASE e.text = "cast" -> 1 [] e.text = "spoiled" -> 2 [] OTHER -> 999))
    \/ e.op = "p_new" /\ Put(plains, e.n, e.ballot) /\ UNCHANGED <<el, meds, bs, subs, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P18"}, "plaintext ballot", Same(e, e.ballot))
    \/ e.op = "p_trip" /\ Put(plains, e.to, plains[e.n]) /\ UNCHANGED <<el, meds, bs, subs, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P18"}, "plaintext ballot read back", Same(e, plains[e.n]))
    \/ e.op = "p_copy" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P18"}, "copies of a plaintext ballot", Ok(e) /\ LET b == plains[e.n] IN
             e.r.one = b /\ e.r.two = b /\ e.r.after = b /\ e.r.contests = b.contests /\ e.r.sels = MapSeq(b.contests, LAMBDA c : c.sel) /\ AssignedOk(e, b))
    \/ e.op = "kp_make" /\ Put(kps, e.to, Listed(plains[e.n])) /\ UNCHANGED <<el, meds, bs, subs, plains, ks, used, pre>>
       /\ why' = ClauseOf({"P17"}, "compact plaintext", Same(e, Listed(plains[e.n])))
    \/ e.op = "kp_new" /\ Put(kps, e.to, e.d) /\ UNCHANGED <<el, meds, bs, subs, plains, ks, used, pre>> /\ why' = ClauseOf({"P17"}, "compact plaintext", Same(e, e.d))
    \/ e.op = "kp_trip" /\ Put(kps, e.to, kps[e.n]) /\ UNCHANGED <<el, meds, bs, subs, plains, ks, used, pre>>
       /\ why' = ClauseOf({"P17", "P18"}, "compact plaintext read back", Same(e, kps[e.n]))
    \/ e.op = "kp_expand" /\ UNCHANGED <<el, meds, bs, subs, kps, ks, used, pre>>
       /\ (IF ExpandRefused(el.im, kps[e.n]) THEN UNCHANGED plains /\ why' = Clause("P17", "expansion of too few votes refused", Refused(e))
           ELSE Put(plains, e.to, ExpandPlain(el.im, kps[e.n])) /\ why' = ClauseOf({"P17"}, "expanded plaintext", Same(e, ExpandPlain(el.im, kps[e.n]))))
    \/ e.op = "k_make" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, used, pre>> /\ (IF Ok(e) THEN Put(ks, e.to, e.r.k) ELSE UNCHANGED ks)
       /\ why' = ClauseOf({"P17"}, "compact ballot", Ok(e) /\ LET d == bs[e.n] IN
             e.r.k = [id |-> e.ballot.id, plain |-> Listed(e.ballot), seed |-> d.seed, code |-> d.code, ts |-> d.ts, nonce |-> d.nonce, state |-> 999])
    \/ e.op = "k_trip" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, used, pre>> /\ (IF Ok(e) THEN ks' = (e.to :> e.r.k) @@ (e.n :> [ks[e.n] EXCEPT !.state = IF e.state = 0 THEN @ ELSE e.state]) @@ ks ELSE UNCHANGED ks)
       /\ why' = ClauseOf({"P17", "P18"}, "compact ballot read back", Ok(e) /\ e.r.k = IF e.state = 0 THEN ks[e.n] ELSE [ks[e.n] EXCEPT !.state = e.state])
    \/ e.op = "k_alter" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, used, pre>> /\ (IF Ok(e) THEN Put(ks, e.to, e.r.k) ELSE UNCHANGED ks)
       /\ why' = ClauseOf({"P17"}, "compact ballot made of parts", Ok(e) /\ e.r.k = e.k)
    \/ e.op = "k_edit" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, used, pre>> /\ (IF Ok(e) THEN Put(ks, e.to, e.r.k) ELSE UNCHANGED ks)
       /\ why' = ClauseOf({"P17"}, "compact ballot with a part replaced", Ok(e) /\ e.r.k = Edited(ks[e.n], e))
    \/ e.op = "k_expand" /\ why' = ExpandC(e) /\ UNCHANGED <<el, meds, subs, plains, kps, ks, used, pre>> /\ (IF Ok(e) THEN Put(bs, e.to, e.r.d) ELSE UNCHANGED bs)
    \/ e.op = "g_read" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P18"}, "input out of format refused", IF e.how \in {"cut", "junk"} THEN Refused(e) ELSE ~Crashed(e))
    \* threads: the events of each thread follow, and are judged as if they had run alone
    \/ e.op = "b_threads" /\ pre' = (pre \/ e.bg) /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used>>
       /\ why' = ClauseOf({"P22"}, "no crash, data race or deadlock", Ok(e))
    \/ e.op \in {"t_fill", "t_stop", "t_init"} /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P22", "P20"}, "background precomputation", Ok(e))
    \/ e.op = "t_read" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P22"}, "shared objects read", Ok(e) /\ e.r.mh = el.im.mh /\ e.r.mh2 = el.im.mh /\ e.r.back = el.im.mh
                              /\ e.r.pk = el.pk /\ e.r.xb = el.xbase)
    \/ e.op \in {"w_cipher", "w_sub", "w_plain", "w_kp", "w_k"} /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P25"}, "document written", Ok(e) /\ DocOp(e))
    \/ e.op \in {"p_read", "kp_read", "k_read", "b_read", "s_read"} /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
       /\ why' = ClauseOf({"P25"}, "document read", Ok(e) /\ ReadOp(e))
    \/ e.op = "exit" /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>> /\ why' = ExitC(e)

None == [im |-> "none"]
Init == /\ tr \in 1..Len(Traces) /\ l = 0 /\ why = {} /\ el = None
        /\ meds = <<>> /\ bs = <<>> /\ subs = <<>> /\ plains = <<>> /\ kps = <<>> /\ ks = <<>> /\ used = <<>> /\ pre = FALSE
\* what an event refers to exists; it does not where an earlier operation wrongly failed, which is judged there
Ready(e) == CASE e.op \in {"b_copy", "b_trip", "b_edit", "b_again", "b_more", "b_submit", "k_make"} -> e.n \in DOMAIN bs
              [] e.op = "b_publish" -> IF e.kind = "submitted" THEN e.n \in DOMAIN subs ELSE e.n \in DOMAIN bs
              [] e.op \in {"b_valid", "b_validdh", "b_tamper", "b_make"} -> e.n \in DOMAIN bs \cup DOMAIN subs
              [] e.op = "w_cipher" -> e.n \in DOMAIN bs
              [] e.op = "w_plain" -> e.n \in DOMAIN plains
              [] e.op = "w_kp" -> e.n \in DOMAIN kps
              [] e.op = "w_k" -> e.n \in DOMAIN ks
              [] e.op \in {"s_trip", "w_sub"} -> e.n \in DOMAIN subs
              [] e.op \in {"p_trip", "p_copy", "kp_make"} -> e.n \in DOMAIN plains
              [] e.op \in {"kp_trip", "kp_expand"} -> e.n \in DOMAIN kps
              [] e.op \in {"k_trip", "k_expand", "k_edit"} -> e.n \in DOMAIN ks
              [] OTHER -> TRUE
Skip == why' = {} /\ UNCHANGED <<el, meds, bs, subs, plains, kps, ks, used, pre>>
Next == l < Len(Traces[tr].ev) /\ why = {} /\ l' = l + 1 /\ tr' = tr /\ (IF Ready(Ev) THEN Step(Ev) ELSE Skip)
Accepted == why = {}
=============================================================================
