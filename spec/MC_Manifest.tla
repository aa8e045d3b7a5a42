----------------------------- MODULE MC_Manifest ----------------------------
(***************************************************************************)
(* The manifest hash separates every manifest from every single change of a *)
(* hashed field, at every place where there is one; the placeholders and    *)
(* the contests of a style for small sequence orders and districts.         *)
(***************************************************************************)
EXTENDS Manifest
VARIABLES m, label
vars == <<m, label>>
T(s) == <<[v |-> s, l |-> "en"]>>
Con == [name |-> "n", addr |-> <<"a1", "a2">>, email |-> <<[a |-> "w", v |-> "e"]>>, phone |-> <<[a |-> "w", v |-> "p"]>>]
Base == [scope |-> "sc", type |-> 1, start |-> "2020-01-01T00:00:00Z", end |-> "2020-01-02T00:00:00Z",
         gps |-> <<[id |-> "g1", name |-> "n1", type |-> 4, contact |-> <<Con>>], [id |-> "g2", name |-> "n2", type |-> 5, contact |-> <<>>]>>,
         parties |-> <<[id |-> "p1", name |-> T("P"), ab |-> "x", color |-> "c", logo |-> "l"], [id |-> "p2", name |-> <<>>, ab |-> "", color |-> "", logo |-> ""]>>,
         cands |-> <<[id |-> "k1", name |-> <<T("K")>>, party |-> "p1", image |-> "", wi |-> FALSE], [id |-> "k2", name |-> <<>>, party |-> "", image |-> "", wi |-> TRUE]>>,
         contests |-> <<[id |-> "c1", seq |-> "2", dist |-> "g1", vv |-> 1, title |-> <<T("t")>>, sub |-> <<>>, name |-> "C1", ne |-> 1, va |-> 0,
                          sel |-> <<[id |-> "s1", seq |-> "5", cand |-> "k1"], [id |-> "s2", seq |-> "4", cand |-> "k2"]>>],
                        [id |-> "c2", seq |-> "1", dist |-> "g2", vv |-> 6, title |-> <<>>, sub |-> <<T("u")>>, name |-> "C2", ne |-> 2, va |-> 2,
                          sel |-> <<[id |-> "s3", seq |-> "1", cand |-> "k1"], [id |-> "s4", seq |-> "2", cand |-> "k2"]>>]>>,
         styles |-> <<[id |-> "b1", gps |-> <<"g1", "g2">>, parties |-> <<"p1">>, image |-> ""], [id |-> "b2", gps |-> <<"g2">>, parties |-> <<>>, image |-> "i"]>>,
         name |-> <<T("name")>>, contact |-> <<Con>>]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Texts == {"", "zz"}
OtherText(o) == {<<>>, <<<<>>>>, <<T("zz")>>, <<<<[v |-> "t", l |-> "fr"]>>>>, <<T("t") \o T("t")>>} \ {o}
OtherContact(o) == ({<<>>, <<[Con EXCEPT !.name = "zz"]>>, <<[Con EXCEPT !.addr = Rev(@)]>>, <<[Con EXCEPT !.email = <<>>]>>, <<[Con EXCEPT !.phone = <<>>]>>,
                      <<[Con EXCEPT !.phone = @ \o @]>>, <<[Con EXCEPT !.email = <<[a |-> "w", v |-> "zz"]>>]>>, <<[Con EXCEPT !.phone = <<[a |-> "zz", v |-> "p"]>>]>>}) \ {o}
Seqd == {"0", "9", "18446744073709551615"}
\* all single changes of hashed fields
Changes ==
    {[Base EXCEPT !.scope = t] : t \in Texts} \cup {[Base EXCEPT !.type = t] : t \in 0..7 \ {1}} \cup {[Base EXCEPT !.start = t] : t \in Texts} \cup {[Base EXCEPT !.end = t] : t \in Texts}
    \cup {[Base EXCEPT !.name = o] : o \in OtherText(Base.name)} \cup {[Base EXCEPT !.contact = o] : o \in OtherContact(Base.contact)}
    \cup {[Base EXCEPT !.gps = Rev(@)], [Base EXCEPT !.parties = Rev(@)], [Base EXCEPT !.contests = Rev(@)], [Base EXCEPT !.styles = Rev(@)]}
    \cup {[Base EXCEPT !.gps = Tail(@)], [Base EXCEPT !.parties = Tail(@)], [Base EXCEPT !.contests = Tail(@)], [Base EXCEPT !.styles = Tail(@)]}
    \cup UNION {{[Base EXCEPT !.gps[i].id = t] : t \in Texts} \cup {[Base EXCEPT !.gps[i].name = t] : t \in Texts} \cup {[Base EXCEPT !.gps[i].type = t] : t \in 0..28 \ {Base.gps[i].type}}
                \cup {[Base EXCEPT !.gps[i].contact = o] : o \in OtherContact(Base.gps[i].contact)} : i \in 1..2}
    \cup UNION {{[Base EXCEPT !.parties[i].id = t] : t \in Texts} \cup {[Base EXCEPT !.parties[i].name = o[1]] : o \in OtherText(<<Base.parties[i].name>>) \ {<<>>}}
                \cup {[Base EXCEPT !.parties[i].ab = "zz"], [Base EXCEPT !.parties[i].color = "zz"], [Base EXCEPT !.parties[i].logo = "zz"]} : i \in 1..2}
    \cup UNION {{[Base EXCEPT !.styles[i].id = t] : t \in Texts} \cup {[Base EXCEPT !.styles[i].gps = <<>>], [Base EXCEPT !.styles[i].gps = @ \o <<"zz">>]}
                \cup {[Base EXCEPT !.styles[i].parties = @ \o <<"zz">>], [Base EXCEPT !.styles[i].image = "zz"]} : i \in 1..2}
    \cup UNION {{[Base EXCEPT !.contests[i].id = t] : t \in Texts} \cup {[Base EXCEPT !.contests[i].seq = t] : t \in Seqd} \cup {[Base EXCEPT !.contests[i].dist = t] : t \in Texts}
                \cup {[Base EXCEPT !.contests[i].vv = t] : t \in 0..12 \ {Base.contests[i].vv}} \cup {[Base EXCEPT !.contests[i].title = o] : o \in OtherText(Base.contests[i].title)}
                \cup {[Base EXCEPT !.contests[i].sub = o] : o \in OtherText(Base.contests[i].sub)} \cup {[Base EXCEPT !.contests[i].name = t] : t \in Texts}
                \cup {[Base EXCEPT !.contests[i].ne = t] : t \in 0..4 \ {Base.contests[i].ne}} \cup {[Base EXCEPT !.contests[i].va = t] : t \in 0..4 \ {Base.contests[i].va}}
                \cup {[Base EXCEPT !.contests[i].sel = Rev(@)], [Base EXCEPT !.contests[i].sel = Tail(@)], [Base EXCEPT !.contests[i].sel = @ \o @]}
                \cup UNION {{[Base EXCEPT !.contests[i].sel[j].id = t] : t \in Texts} \cup {[Base EXCEPT !.contests[i].sel[j].seq = t] : t \in Seqd}
                            \cup {[Base EXCEPT !.contests[i].sel[j].cand = t] : t \in Texts} : j \in 1..2} : i \in 1..2}
BaseH == ManifestHash(Base)
Hashes == TLCEval({<<ManifestHash(c), c>> : c \in Changes \cup {Base}})
ASSUME Cardinality({h[1] : h \in Hashes}) = Cardinality(Changes) + 1     \* pairwise different
Init == m \in Changes \cup {Base} /\ label = 0
Next == UNCHANGED vars
Detected == (m # Base) = (ManifestHash(m) # BaseH)
\* placeholders: as many as seats, after every option, with names of their own
PlaceholdersOk == \A i \in DOMAIN m.contests : LET c == m.contests[i] ph == Placeholders(c) IN
    (\A j \in DOMAIN c.sel : DLt(c.sel[j].seq, "18446744073709551600")) =>
    /\ Len(ph) = c.ne /\ Distinct(Ids(ph)) /\ Distinct(Seqs(ph)) /\ \A j \in DOMAIN c.sel : \A k \in DOMAIN ph : DLt(c.sel[j].seq, ph[k].seq) /\ c.sel[j].id # ph[k].id
    /\ (Len(c.sel) > 0 => ph = Placeholders([c EXCEPT !.sel = Rev(@)]))
\* a style delivers exactly the contests of its districts, each once, in sequence order, whatever the order of the manifest
Delivery == LET im == Internal(m) im2 == Internal([m EXCEPT !.contests = Rev(@), !.gps = Rev(@)]) IN \A i \in DOMAIN m.styles : LET st == m.styles[i].id IN
    (m.styles[i].gps # <<>> /\ Named(Ids(m.styles)) /\ Distinct(Seqs(m.contests))) =>
    LET xs == ContestsFor(im, st) IN
    /\ \A j \in DOMAIN m.contests : (m.contests[j].dist \in Rng(m.styles[i].gps)) <=> (\E k \in DOMAIN xs : xs[k].c = m.contests[j])
    /\ \A j \in 1..(Len(xs) - 1) : DLt(xs[j].c.seq, xs[j + 1].c.seq)
    /\ xs = ContestsFor(im2, st)
\* which of the changes make a manifest unusable is decided by these alone
ValidOnes == ManifestOk(m) => /\ \A i \in DOMAIN m.contests : m.contests[i].ne <= Len(m.contests[i].sel)
                              /\ \A i \in DOMAIN m.styles : ContestsFor(Internal(m), m.styles[i].id) # <<>> \/ m.styles[i].gps # <<>>
BaseValid == ManifestOk(Base)
=============================================================================
