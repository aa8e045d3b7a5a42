------------------------------ MODULE EGNonces ------------------------------
(* The nonce sequence object as a state machine.                            *)
EXTENDS NonceDefs
VARIABLE nseqs                 \* name -> [base, next]
NInit == nseqs = <<>>
NNew(n, seed, hdr) == nseqs' = (n :> [base |-> SeqSeed(seed, hdr), next |-> "0"]) @@ nseqs
NAdvance(n, i)     == nseqs' = (n :> [nseqs[n] EXCEPT !.next = DAdd(i, "1")]) @@ nseqs
=============================================================================
