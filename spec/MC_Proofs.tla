------------------------------ MODULE MC_Proofs -----------------------------
(***************************************************************************)
(* The proofs over a toy group (run with -Deg.p=17 -Deg.q=0B -Deg.g=02):    *)
(*  - completeness: every honestly made proof of a true statement is valid, *)
(*    for every key, nonce and random choice;                               *)
(*  - soundness of the equations: for a commitment and a false statement at *)
(*    most one challenge can be answered, for a true one the honest         *)
(*    commitments can be answered for every challenge;                      *)
(*  - ElGamal: decryption and addition.                                     *)
(***************************************************************************)
EXTENDS ChaumPedersen, TLC
CONSTANT Rich         \* all random choices, or a sample of them
VARIABLES s, r, m, x, y, ph
vars == <<s, r, m, x, y, ph>>
N(i) == DHex(DStr(i))
Zq == 0..10
Init == s \in (IF Rich THEN 2..10 ELSE {2, 7, 10}) /\ r \in 1..10 /\ m = 0 /\ x = 0 /\ y = 0 /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<s, r>> /\ m' \in Zq /\ x' \in Zq /\ y' \in (IF Rich THEN Zq ELSE {0, 1, 4, 10})
K == PPow(G, N(s))
C == Enc(DStr(m), N(r), K)
Hdr == "05"
Vs == IF Rich THEN {"00", "01", "05", "0A"} ELSE {"00", "07"}
Complete == m \in {0, 1} => \A v \in Vs : DjValid(C, K, Hdr, DjMake(C, N(r), K, Hdr, m, N(x), N(y), v))
CompleteConstant == CcValid(C, K, Hdr, CcMake(C, N(r), K, Hdr, N(x), DStr(m)))
\* one branch of the proof: commitment (g^x, g^y), claim "the plaintext is k"
Answerable(k) == {c \in Zq : \E v \in Zq : /\ PPow(G, N(v)) = PMul(PPow(G, N(x)), PPow(C[1], N(c)))
                                           /\ PMul(PPow(G, QMul(N(c), N(k))), PPow(K, N(v))) = PMul(PPow(G, N(y)), PPow(C[2], N(c)))}
HonestCommitment == QMul(N(x), N(s)) = N(y)
Sound == \A k \in {0, 1} : IF m = k THEN Answerable(k) = (IF HonestCommitment THEN Zq ELSE {}) ELSE Cardinality(Answerable(k)) <= 1
\* a proof for a false statement never verifies, whatever the prover does in its own branch, unless the hash happens to allow it
Decrypts == /\ Dec(C, N(s)) = (IF m = 0 THEN "0" ELSE IF m = 1 THEN "1" ELSE "none")
            /\ \A w \in 2..10 : w # s => (Dec(C, N(w)) = Dec(C, N(s)) => Dec(C, N(s)) = "none")
Adds == LET D == Enc(DStr(y), N(x), K) IN
        /\ Combine(<<C, D>>) = Enc(DStr(m + y), QAdd(N(r), N(x)), K) /\ Combine(<<D, C>>) = Combine(<<C, D>>)
        /\ Combine(<<C, D, C>>) = Enc(DStr(2 * m + y), QAdd(QAdd(N(r), N(x)), N(r)), K)
=============================================================================
