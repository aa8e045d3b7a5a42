------------------------------ MODULE MC_Chain ------------------------------
(***************************************************************************)
(* Devices that encrypt and refuse ballots, with encryptions outside them,  *)
(* in every order.  Forgets = "compact" / "refusal" / "none": the broken    *)
(* variants forget to advance on a compact ballot, or go back to the device *)
(* hash after a refusal (negative controls).                                *)
(***************************************************************************)
EXTENDS Chain
CONSTANTS Devices, MaxLog, Forgets
VARIABLE refused
vars == <<last, log, refused>>
Dev(d) == DeviceHash([dev |-> d, ses |-> "1", launch |-> "2", loc |-> "x"])
Init == ChainInit(Devices, Dev) /\ refused = 0
Bh(id) == H(<<TS(id)>>)
Times == {"5", "6"}
Votes2 == {"a", "b"}
Full(d, v, ts) == OnDevice(d, v, ts, Bh(v)) /\ UNCHANGED refused
CompactOne(d, v, ts) == /\ UNCHANGED refused
    /\ IF Forgets = "compact" THEN UNCHANGED last /\ log' = Append(log, [dev |-> d, id |-> v, seed |-> last[d], ts |-> ts, bh |-> Bh(v), code |-> CodeFor(last[d], ts, Bh(v))])
       ELSE OnDevice(d, v, ts, Bh(v))
RefuseOne(d) == refused < 2 /\ refused' = refused + 1 /\ IF Forgets = "refusal" THEN last' = [last EXCEPT ![d] = Dev(d)] /\ UNCHANGED log ELSE Refuse
Direct(v, ts) == Outside(v, Dev("9"), ts, Bh(v)) /\ UNCHANGED refused
Next == /\ Len(log) < MaxLog
        /\ \/ \E d \in Devices, v \in Votes2, ts \in Times : Full(d, v, ts) \/ CompactOne(d, v, ts)
           \/ \E d \in Devices : RefuseOne(d)
           \/ \E v \in Votes2 : Direct(v, "5")
Of(d) == SelectSeq(log, LAMBDA x : x.dev = d)
\* one unbroken chain per device, from its hash to the last code
Linked == \A d \in Devices : LET s == Of(d) IN
    /\ \A i \in DOMAIN s : s[i].seed = (IF i = 1 THEN Dev(d) ELSE s[i - 1].code)
    /\ last[d] = (IF s = <<>> THEN Dev(d) ELSE s[Len(s)].code)
\* no two ballots of the devices share a seed or a code: nothing can be left out, inserted or reordered unseen
NoFork == \A i, j \in DOMAIN log : (i # j /\ log[i].dev # "" /\ log[j].dev # "") => log[i].seed # log[j].seed /\ log[i].code # log[j].code
\* the code binds all that went into it
Binds == \A i, j \in DOMAIN log : log[i].code = log[j].code => /\ log[i].seed = log[j].seed /\ log[i].ts = log[j].ts /\ log[i].bh = log[j].bh
=============================================================================
