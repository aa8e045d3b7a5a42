------------------------------ MODULE MC_Ballot -----------------------------
(***************************************************************************)
(* What a ballot means, exhaustively: every contest of up to Opts options   *)
(* with 1..Opts seats, every allowance of votes, every vector of marks      *)
(* 0..2 with and without write-ins, every order of the entries and a        *)
(* missing entry; over a toy group (-Deg.p=17 -Deg.q=0B -Deg.g=02).         *)
(***************************************************************************)
EXTENDS Ballot
CONSTANTS Opts
VARIABLES n, ne, va, marks, wis, perm, ph
vars == <<n, ne, va, marks, wis, perm, ph>>
Perms(k) == {f \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => f[i] # f[j]}
Init == n \in 1..Opts /\ ne \in 1..n /\ va \in {0} \cup ne..(n + 1) /\ marks = <<>> /\ wis = <<>> /\ perm = <<>> /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED <<n, ne, va>>
        /\ marks' \in [1..n -> 0..2] /\ wis' \in [1..n -> BOOLEAN] /\ perm' \in Perms(n)
Sel(i) == [id |-> "s" \o DStr(i), seq |-> DStr(n + 1 - i), cand |-> "k" \o DStr(i)]
\* the options are listed against the sequence order
C == [id |-> "c", seq |-> "1", dist |-> "g", vv |-> 1, title |-> <<>>, sub |-> <<>>, name |-> "c", ne |-> ne, va |-> va, sel |-> [i \in 1..n |-> Sel(i)]]
X == [c |-> C, ph |-> Placeholders(C)]
Im == [mh |-> "07", gps |-> <<>>, styles |-> <<[id |-> "b", gps |-> <<"g">>, parties |-> <<>>, image |-> ""]>>, contests |-> <<X>>,
       cands |-> [i \in 1..n |-> [id |-> "k" \o DStr(i), wi |-> ph = 1 /\ wis[i]]]]
Entry(i) == [id |-> "s" \o DStr(i), vote |-> marks[i], ph |-> FALSE, wi |-> IF wis[i] THEN "name" ELSE ""]
B == [id |-> "v", style |-> "b", contests |-> <<[id |-> "c", sel |-> [i \in 1..n |-> Entry(perm[i])]]>>]
Ms == MarksIn(C, B)
Meant == ph = 1 => \A i \in 1..n : \E j \in 1..n : Ms[j].id = "s" \o DStr(i) /\ Ms[j].vote = marks[i]
Ordered == ph = 1 => \A i \in 1..(n - 1) : DLt(Ms[i].seq, Ms[i + 1].seq)
Accepted == ph = 1 /\ ~BallotRefused(Im, B)
V == Votes(C, Ms)
Total(v) == FoldFunction(LAMBDA a, b : a + b, 0, v)
\* every accepted ballot encrypts zeros and ones which sum to the number of seats
Sums == Accepted => Len(V) = n + ne /\ Rng(V) \subseteq {0, 1} /\ Total(V) = ne
\* within the limits the marks are what is encrypted; beyond them nothing is, and the record says so
Faithful == Accepted => IF Overvoted(C, Ms) THEN Rng(RealVotes(C, Ms)) = {0} ELSE \A i \in 1..n : V[i] = Ms[i].vote
Exact == Accepted /\ ~Overvoted(C, Ms) => SumVotes(Ms) <= ne
Recorded == Accepted => LET t == Record(Im, C, Ms) wi == \E i \in 1..n : wis[i] /\ marks[i] >= 1 IN
    /\ (t = "") = (~Overvoted(C, Ms) /\ ~wi)
    /\ TContains(t, "overvote") = Overvoted(C, Ms) /\ TContains(t, "write_ins") = wi
    /\ \A i \in 1..n : (Overvoted(C, Ms) /\ marks[i] >= 1 => TContains(t, JsonText("s" \o DStr(i))))
\* the meaning does not depend on the order in which the voter's entries are listed, nor on entries without a mark
OrderFree == ph = 1 => /\ Ms = MarksIn(C, [B EXCEPT !.contests[1].sel = [i \in 1..n |-> Entry(i)]])
             /\ ((\A i \in 1..n : wis[i] => marks[i] > 0) => Ms = MarksIn(C, [B EXCEPT !.contests[1].sel = SelectSeq(@, LAMBDA m : m.vote > 0)]))
\* compacting and expanding keeps the meaning
Compact == ph = 1 => LET k == CompactPlain(Im, B) IN ~ExpandRefused(Im, k) /\ CompactPlain(Im, ExpandPlain(Im, k)) = k /\ MarksIn(C, ExpandPlain(Im, k)) = Ms
\* the accumulation opens to the number of seats (in the toy group)
El == [im |-> Im, pk |-> PPow(G, "07"), s |-> "07", xbase |-> "03"]
Accumulates == (Accepted /\ \A i \in 1..n : perm[i] = i) => LET e == EncContest(El, X, V, Record(Im, C, Ms), "05", DerivedNonces(X, "05")) IN
    /\ e.acc = Enc(DStr(ne), QSum(MapSeq(e.sel, LAMBDA s : s.nonce[1])), El.pk)
    /\ CcValid(e.acc, El.pk, El.xbase, e.proof[1])
    /\ ContestValid(e, e.dh, El.pk, El.xbase)
    /\ HeDecrypt(e.he[1], El.s, El.xbase, TRUE) = <<RecordBytes(Record(Im, C, Ms))>>
Names == Named(Ids(C.sel \o X.ph)) /\ Distinct(Seqs(C.sel \o X.ph))
=============================================================================
