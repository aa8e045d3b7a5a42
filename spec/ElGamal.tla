------------------------------ MODULE ElGamal -------------------------------
(* Exponential ElGamal over the standard group. *)
EXTENDS EGHash
PublicKey(s) == PPow(G, s)
KeyOk(s) == InQ(s) /\ ~ILt(s, Two)
\* m: decimal text
Enc(m, r, k) == <<PPow(G, r), PMul(PPow(G, DHex(m)), PPow(k, r))>>
Combine(cs) == <<PProd([i \in DOMAIN cs |-> cs[i][1]]), PProd([i \in DOMAIN cs |-> cs[i][2]])>>
\* what decryption reports: "0", "1", or "none"
Dec(c, s) == LET m == PMul(c[2], PInv(PPow(c[1], s))) IN
             IF m = One THEN "0" ELSE IF m = G THEN "1" ELSE "none"
CipherHash(c) == H(<<c[1], c[2]>>)
=============================================================================
