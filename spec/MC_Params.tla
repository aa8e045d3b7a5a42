------------------------------ MODULE MC_Params -----------------------------
(* Facts about the standard parameters which the specification relies on:   *)
(* the sizes, p = q r + 1, the order of g, and Fermat tests of both primes   *)
(* for the bases in Bases.                                                   *)
EXTENDS EGGroup, TLC
VARIABLE w
Bases == {"02", "03", "05", "07", "0B", "0D"}
Init == w \in Bases
Next == UNCHANGED w
Sizes == BLen(P) = 512 /\ BLen(Q) = 32 /\ Q = ISub(TwoPow(256), "BD") /\ BSub(P, 1, 32) = TextRepeat("F", 64) /\ BSub(P, 481, 512) = TextRepeat("F", 64)
Cofactor == LET r == IDiv(ISub(P, "01"), Q) IN IAdd(IMul(Q, r), "01") = P /\ G = PPow("02", r)
Order == Residue(G) /\ G # One /\ ~Residue(ISub(P, G))
Fermat == PPow(w, ISub(P, "01")) = One /\ QPow(w, ISub(Q, "01")) = One
\* the group laws at large elements
Laws == LET x == PPow(G, w) IN /\ PMul(x, PInv(x)) = One /\ PMul(x, x) = PPow(G, QAdd(w, w)) /\ PPow(x, w) = PPow(G, QMul(w, w))
                               /\ QAdd(w, QSub(Zero, w)) = Zero /\ PAdd(x, ISub(P, x)) = Zero
=============================================================================
