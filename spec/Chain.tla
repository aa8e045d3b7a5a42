------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* The chain of ballot codes of an encryption device.  A device starts from *)
(* its own hash; each ballot it encrypts - in full or compact form - takes  *)
(* the last code as its seed and becomes the last code itself; a refused    *)
(* ballot and an encryption outside the device change nothing.              *)
(*   last : device -> last code     log : what was encrypted, in order      *)
(***************************************************************************)
EXTENDS Ballot
VARIABLES last, log
cvars == <<last, log>>
ChainInit(devs, F(_)) == last = [d \in devs |-> F(d)] /\ log = <<>>
\* an encryption of a ballot with this hash at this time
CodeFor(seed, ts, bh) == BallotCodeOf(seed, ts, bh)
OnDevice(d, id, ts, bh) == LET code == CodeFor(last[d], ts, bh) IN
    /\ last' = [last EXCEPT ![d] = code]
    /\ log' = Append(log, [dev |-> d, id |-> id, seed |-> last[d], ts |-> ts, bh |-> bh, code |-> code])
Outside(id, seed, ts, bh) == /\ UNCHANGED last /\ log' = Append(log, [dev |-> "", id |-> id, seed |-> seed, ts |-> ts, bh |-> bh, code |-> CodeFor(seed, ts, bh)])
Refuse == UNCHANGED cvars
=============================================================================
