---------------------------- MODULE ChaumPedersen ---------------------------
(***************************************************************************)
(* The two proofs.  Make* is the prover with its random choices explicit;  *)
(* *Valid is the published verification.                                   *)
(***************************************************************************)
EXTENDS ElGamal

\* ---- disjunctive proof: c = <<pad, data>> encrypts 0 or 1
DjHash(c, k, hdr, p) == H(<<hdr, c[1], c[2], p.a0, p.b0, p.a1, p.b1>>)
DjBounds(c, p) ==
    /\ Residue(c[1]) /\ Residue(c[2])
    /\ Residue(p.a0) /\ Residue(p.b0) /\ Residue(p.a1) /\ Residue(p.b1)
    /\ InQ(p.c0) /\ InQ(p.c1) /\ InQ(p.v0) /\ InQ(p.v1)
DjEqs(c, k, hdr, p) ==
    /\ p.c = DjHash(c, k, hdr, p)
    /\ QAdd(p.c0, p.c1) = p.c
    /\ PPow(G, p.v0) = PMul(p.a0, PPow(c[1], p.c0))
    /\ PPow(G, p.v1) = PMul(p.a1, PPow(c[1], p.c1))
    /\ PPow(k, p.v0) = PMul(p.b0, PPow(c[2], p.c0))
    /\ PMul(PPow(G, p.c1), PPow(k, p.v1)) = PMul(p.b1, PPow(c[2], p.c1))
DjValid(c, k, hdr, p) == DjBounds(c, p) /\ DjEqs(c, k, hdr, p)

\* the honest prover: u real commitment; (cs, vs) simulated challenge and response
DjMake(c, r, k, hdr, m, u, cs, vs) ==
    LET neg == QSub(Zero, cs)
        ar == PPow(G, u)  br == PPow(k, u)
        as == PMul(PPow(G, vs), PPow(c[1], neg))
        bs == IF m = 0 THEN PMul(PMul(PPow(k, vs), PPow(G, cs)), PPow(c[2], neg))      \* simulate "1"
              ELSE PMul(PPow(k, vs), PPow(c[2], neg))                                   \* simulate "0"
        a0 == IF m = 0 THEN ar ELSE as   b0 == IF m = 0 THEN br ELSE bs
        a1 == IF m = 0 THEN as ELSE ar   b1 == IF m = 0 THEN bs ELSE br
        ch == H(<<hdr, c[1], c[2], a0, b0, a1, b1>>)
        cr == QSub(ch, cs)
        vr == QAdd(u, QMul(cr, r))
    IN [a0 |-> a0, b0 |-> b0, a1 |-> a1, b1 |-> b1, c |-> ch,
        c0 |-> IF m = 0 THEN cr ELSE cs, c1 |-> IF m = 0 THEN cs ELSE cr,
        v0 |-> IF m = 0 THEN vr ELSE vs, v1 |-> IF m = 0 THEN vs ELSE vr]
\* the seeded prover draws its choices from the seed
DjSeeded(c, r, k, hdr, seed, m) ==
    LET b == H(<<seed, "disjoint-chaum-pedersen-proof">>) IN
    DjMake(c, r, k, hdr, m, H(<<b, "2">>), H(<<b, NullText>>), H(<<b, "1">>))

\* ---- constant proof: c encrypts the total L (decimal text)
CcHash(c, hdr, p) == H(<<hdr, c[1], c[2], p.a, p.b>>)
CcValid(c, k, hdr, p) ==
    /\ Residue(c[1]) /\ Residue(c[2]) /\ Residue(p.a) /\ Residue(p.b)
    /\ InQ(p.c) /\ InQ(p.v)
    /\ p.c = CcHash(c, hdr, p)
    /\ PPow(G, p.v) = PMul(p.a, PPow(c[1], p.c))
    /\ PMul(PPow(G, QMul(p.c, DHex(p.k))), PPow(k, p.v)) = PMul(p.b, PPow(c[2], p.c))
CcMake(c, r, k, hdr, u, L) ==
    LET a == PPow(G, u) b == PPow(k, u) ch == H(<<hdr, c[1], c[2], a, b>>) IN
    [a |-> a, b |-> b, c |-> ch, v |-> QAdd(u, QMul(ch, r)), k |-> L]
CcSeeded(c, r, k, seed, hdr, L) ==
    CcMake(c, r, k, hdr, H(<<H(<<seed, "constant-chaum-pedersen-proof">>), NullText>>), L)
=============================================================================
