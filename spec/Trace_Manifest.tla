--------------------------- MODULE Trace_Manifest ---------------------------
(* Trace specification: manifests, internal manifests, contexts, devices.   *)
EXTENDS TraceBase, Wire
VARIABLES tr, l, why, mfs, ims, cxs, dvs
vars == <<tr, l, why, mfs, ims, cxs, dvs>>
Ev == Traces[tr].ev[l + 1]

\* what the getters show: contests and selections in sequence order, no construction detail
SelView(s)  == [id |-> s.id, cand |-> s.cand, seq |-> s.seq]
ContestView(c) == [id |-> c.id, dist |-> c.dist, seq |-> c.seq, vv |-> c.vv, ne |-> c.ne, va |-> c.va, name |-> c.name,
                   title |-> c.title, sub |-> c.sub, sel |-> MapSeq(BySeq(c.sel), SelView)]
CandView(k, absent) == [id |-> k.id, name |-> IF k.name = <<>> THEN absent ELSE k.name, party |-> k.party, image |-> k.image, wi |-> k.wi]
StyleView(s) == [id |-> s.id, gps |-> s.gps, parties |-> s.parties, image |-> s.image]
PartyView(p) == [id |-> p.id, name |-> p.name, ab |-> p.ab, color |-> p.color, logo |-> p.logo]
View(m, absent) == [scope |-> m.scope, type |-> m.type, start |-> m.start, end |-> m.end, gps |-> m.gps,
    parties |-> MapSeq(m.parties, PartyView), cands |-> MapSeq(m.cands, LAMBDA k : CandView(k, absent)),
    contests |-> MapSeq(BySeq(m.contests), ContestView), styles |-> MapSeq(m.styles, StyleView), name |-> m.name, contact |-> m.contact]
InternalView(im, absent) == [mh |-> im.mh, gps |-> im.gps, cands |-> MapSeq(im.cands, LAMBDA k : CandView(k, absent)),
    styles |-> MapSeq(im.styles, StyleView),
    contests |-> MapSeq(InSeqOrder(im.contests), LAMBDA x : [c |-> ContestView(x.c), ph |-> x.ph, hash |-> ContestHash(x.c)])]
WithView(x) == [c |-> ContestView(x.c), ph |-> x.ph, hash |-> ContestHash(x.c)]

\* orderings are determined only if sequence orders are unique
Ordered(m) == Distinct(Seqs(m.contests)) /\ \A i \in DOMAIN m.contests : Distinct(Seqs(m.contests[i].sel))
\* a candidate without a name is read back with an empty one
Absent(fmt) == IF fmt = "" THEN <<>> ELSE <<(<<>>)>>
AboutC(e, m, fmt, p) ==
    IF ~Ok(e) THEN ClauseOf(p, "manifest can be made", FALSE)
    ELSE ClauseOf({"P12"} \cup p, "manifest hash", e.r.hash = ManifestHash(m))
         \cup ClauseOf({"P13"}, "validity of the manifest", e.r.valid = ManifestOk(m))
         \cup ClauseOf({"P13"}, "validity of the contests", Ordered(m) => e.r.cvalid = MapSeq(BySeq(m.contests), ContestOk))
         \cup ClauseOf({"P12"} \cup p, "hashes of the parts",
                /\ e.r.gh = MapSeq(m.gps, UnitHash) /\ e.r.ph = MapSeq(m.parties, PartyHash)
                /\ e.r.kh = MapSeq(View(m, Absent(fmt)).cands, CandHash) /\ e.r.th = MapSeq(m.styles, StyleHash)
                /\ (Ordered(m) => /\ e.r.ch = MapSeq(BySeq(m.contests), ContestHash)
                                  /\ e.r.sh = MapSeq(BySeq(m.contests), LAMBDA k : MapSeq(BySeq(k.sel), SelHash))))
         \cup ClauseOf({"P18"} \cup p, "content of the manifest", Ordered(m) => e.r.d = View(m, Absent(fmt)))
CopiesC(e, m) == Clause("P18", "copies of the parts",
    /\ Ok(e) /\ e.r.gh = MapSeq(m.gps, UnitHash) /\ e.r.ph = MapSeq(m.parties, PartyHash)
    /\ (Ordered(m) => e.r.ch = MapSeq(BySeq(m.contests), ContestHash) /\ e.r.cd = View(m, <<>>).contests)
    /\ e.r.th = MapSeq(m.styles, StyleHash) /\ e.r.kh = MapSeq(m.cands, CandHash))
    \cup Clause("P18", "parts assigned and moved", Ok(e) /\ ("as" \in DOMAIN e.r =>
        /\ e.r.as = <<e.r.gh, e.r.ph, e.r.kh, e.r.ch, e.r.th>> /\ e.r.mv = e.r.as /\ e.r.smv = e.r.sas
        /\ (Ordered(m) => e.r.sas = MapSeq(BySeq(m.contests), LAMBDA k : MapSeq(BySeq(k.sel), SelHash)))))
    \cup Clause("P12", "hashes of copies", Ok(e) /\ (Ordered(m) => e.r.ch = MapSeq(BySeq(m.contests), ContestHash)))
ImDistinct(im) == Distinct(MapSeq(im.contests, LAMBDA x : x.c.seq)) /\ \A i \in DOMAIN im.contests : Distinct(Seqs(im.contests[i].c.sel))
ImC(e, im, fmt, p) == ClauseOf(p, "internal manifest", Ok(e) /\ (ImDistinct(im) => e.r.d = InternalView(im, Absent(fmt)) /\ e.r.d.mh = im.mh))
ForC(e, im) == IF StyleRefused(im, e.style) THEN Clause("P14", "unknown style refused", Refused(e))
    ELSE Clause("P14", "contests of a style", Ok(e) /\ e.r.known /\ (ImDistinct(im) => e.r.cs = MapSeq(ContestsFor(im, e.style), WithView)))
LookupC(e, im) == LET cs == InSeqOrder(im.contests) IN Clause("P14", "lookup of selections and placeholders",
    Ok(e) /\ (ImDistinct(im) =>
        /\ e.r.found = MapSeq(cs, LAMBDA x : MapSeq(BySeq(x.c.sel), SelView) \o x.ph)
        /\ e.r.isph = MapSeq(cs, LAMBDA x : [i \in 1..(Len(x.c.sel) + Len(x.ph)) |-> i > Len(x.c.sel)])))

DefaultMax == "1000000"
UsesCfg(ctor) == ctor \in {1, 3, 5, 7}
UsesExt(ctor) == ctor \in {2, 3, 6, 7}
ContextOf(e) == [n |-> e.n, k |-> e.k, pk |-> e.pk, com |-> e.com, mh |-> e.mh, base |-> BaseHash(e.n, e.k, e.mh),
    xbase |-> ExtendedHash(e.n, e.k, e.mh, e.com), over |-> IF UsesCfg(e.ctor) THEN e.over ELSE TRUE,
    max |-> IF UsesCfg(e.ctor) THEN e.max ELSE DefaultMax, ext |-> IF UsesExt(e.ctor) THEN e.ext ELSE <<>>]
DeviceOf(e) == [dev |-> e.dev, ses |-> e.ses, launch |-> e.launch, loc |-> e.loc, hash |-> DeviceHash(e)]

\* hashes of the texts and contacts, where the interface shows them
ExtraC(e, m) == IF ~Ok(e) \/ "x" \notin DOMAIN e.r THEN {} ELSE
    ClauseOf({"P12"}, "hashes of texts and contacts", e.r.x = IF m.name = <<>> \/ m.contact = <<>> THEN <<>> ELSE
        <<[name |-> TextHash(m.name[1]), langs |-> MapSeq(m.name[1], LangHash), contact |-> ContactHash(m.contact[1]),
           email |-> MapSeq(m.contact[1].email, AnnHash), phone |-> MapSeq(m.contact[1].phone, AnnHash)]>>)
\* a contest with placeholders, made of its parts in one of four ways
WpC(e) == ClauseOf({"P12", "P14"}, "contest with placeholders", Ok(e) /\ (Distinct(Seqs(e.c.sel)) => e.r.d = [c |-> ContestView(e.c), ph |-> e.ph, hash |-> ContestHash(e.c)]))
Put(v, n, x) == v' = (n :> x) @@ v
\* documents: what is written, and what is read from documents made elsewhere
DocOp(e) ==
    CASE e.op = "mf_doc" -> SameDoc(e.r.doc, ManifestD("", mfs[e.n]))
      [] e.op = "im_doc" -> ImDistinct(ims[e.n]) => SameDoc(e.r.doc, InternalD("", ims[e.n]))
      [] e.op = "cx_doc" -> SameDoc(e.r.doc, ContextD("", cxs[e.name]))
      [] e.op = "dv_doc" -> SameDoc(e.r.doc, DeviceD("", dvs[e.name]))
      [] e.op = "const_doc" -> SameDoc(e.r.doc, ConstantsD)
ReadOp(e) ==
    CASE e.op = "mf_read" -> e.r.d = View(e.m, Absent(e.fmt)) /\ e.r.hash = ManifestHash(e.m) /\ e.r.valid = ManifestOk(e.m)
      [] e.op = "im_read" -> e.r.d = InternalView(e.x, Absent(e.fmt))
      [] e.op \in {"cx_read", "dv_read"} -> e.r.d = e.x
\* documents that are none are refused, each of them, whatever is wrong
SpoilC(e) == ClauseOf({"P26"}, "document without the defect is read", Ok(e) /\ e.r.good)
    \cup ClauseOf({"P26"}, "malformed document refused", Ok(e) /\ \A k \in Rng(e.r.acc) : ~DefectAt(e.kind, e.doc, e.what[k][1], e.what[k][2]))
    \cup ClauseOf({"P26"}, "damaged document refused", Ok(e) /\ e.r.racc = <<>> /\ e.r.odd = <<>>)
Step(e) ==
    \/ e.op = "spoil" /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = SpoilC(e)
    \/ e.op = "mf_new" /\ Put(mfs, e.n, e.m) /\ UNCHANGED <<ims, cxs, dvs>> /\ why' = AboutC(e, e.m, "", {"P12", "P13", "P18"}) \cup ExtraC(e, e.m)
    \/ e.op = "mf_trip" /\ Put(mfs, e.to, [mfs[e.n] EXCEPT !.cands = View(mfs[e.n], Absent(e.fmt)).cands]) /\ UNCHANGED <<ims, cxs, dvs>>
       /\ why' = AboutC(e, mfs[e.n], e.fmt, {"P18", "P12"}) \cup ExtraC(e, mfs[e.n])
    \/ e.op = "mf_copies" /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = CopiesC(e, mfs[e.n])
    \/ e.op = "im_copies" /\ UNCHANGED <<mfs, ims, cxs, dvs>>
       /\ why' = LET im == ims[e.n] IN ClauseOf({"P18"}, "contests with placeholders assigned and moved", Ok(e) /\ e.r.mv = e.r.as /\
              (ImDistinct(im) => e.r.as = InternalView(im, <<>>).contests))
    \/ e.op = "mf_lite" /\ UNCHANGED <<mfs, ims, cxs, dvs>>
       /\ why' = Clause("P13", "validity", Ok(e) /\ e.r.valid = ManifestOk(e.m)) \cup Clause("P12", "hash", Ok(e) /\ e.r.hash = ManifestHash(e.m))
    \/ e.op = "ct_lite" /\ UNCHANGED <<mfs, ims, cxs, dvs>>
       /\ why' = Clause("P13", "contest validity", Ok(e) /\ e.r.valid = ContestOk(e.c)) \cup Clause("P12", "hash", Ok(e) /\ e.r.hash = ContestHash(e.c))
    \/ e.op = "im_new" /\ Put(ims, e.n, Internal(mfs[e.m])) /\ UNCHANGED <<mfs, cxs, dvs>> /\ why' = ImC(e, Internal(mfs[e.m]), "", {"P14", "P12"})
    \/ e.op = "im_trip" /\ Put(ims, e.to, [ims[e.n] EXCEPT !.cands = InternalView(ims[e.n], Absent(e.fmt)).cands]) /\ UNCHANGED <<mfs, cxs, dvs>>
       /\ why' = ImC(e, ims[e.n], e.fmt, {"P18", "P14"})
    \/ e.op = "im_for" /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = ForC(e, ims[e.n])
    \/ e.op = "im_lookup" /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = LookupC(e, ims[e.n])
    \/ e.op = "cx_new" /\ Put(cxs, e.name, ContextOf(e)) /\ UNCHANGED <<mfs, ims, dvs>>
       /\ why' = ClauseOf({"P12", "P18"}, "election context", Ok(e) /\ e.r.d = ContextOf(e))
    \/ e.op = "cx_trip" /\ Put(cxs, e.to, cxs[e.name]) /\ UNCHANGED <<mfs, ims, dvs>>
       /\ why' = ClauseOf({"P12", "P18"}, "context read back", Ok(e) /\ e.r.d = cxs[e.name])
    \/ e.op = "dv_new" /\ Put(dvs, e.name, DeviceOf(e)) /\ UNCHANGED <<mfs, ims, cxs>>
       /\ why' = ClauseOf({"P11", "P18"}, "device hash", Ok(e) /\ e.r.d = DeviceOf(e))
    \/ e.op = "dv_trip" /\ Put(dvs, e.to, dvs[e.name]) /\ UNCHANGED <<mfs, ims, cxs>>
       /\ why' = ClauseOf({"P11", "P18"}, "device read back", Ok(e) /\ e.r.d = dvs[e.name])
    \/ e.op = "md_new" /\ UNCHANGED <<mfs, ims, cxs, dvs>>
       /\ why' = Clause("P12", "mediator for another manifest refused", IF cxs[e.cx].mh = ims[e.im].mh THEN Ok(e) ELSE Refused(e))
    \/ e.op = "wp_new" /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = WpC(e)
    \/ e.op \in {"mf_doc", "im_doc", "cx_doc", "dv_doc", "const_doc"} /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = ClauseOf({"P25"}, "document written", Ok(e) /\ DocOp(e))
    \/ e.op \in {"mf_read", "im_read", "cx_read", "dv_read"} /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = ClauseOf({"P25"}, "document read", Ok(e) /\ ReadOp(e))
    \/ e.op = "exit" /\ UNCHANGED <<mfs, ims, cxs, dvs>> /\ why' = ExitC(e)

Init == tr \in 1..Len(Traces) /\ l = 0 /\ why = {} /\ mfs = <<>> /\ ims = <<>> /\ cxs = <<>> /\ dvs = <<>>
Next == l < Len(Traces[tr].ev) /\ why = {} /\ l' = l + 1 /\ tr' = tr /\ Step(Ev)
Accepted == why = {}
=============================================================================
