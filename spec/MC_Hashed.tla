------------------------------ MODULE MC_Hashed -----------------------------
(***************************************************************************)
(* Hashed ElGamal: round trip for every length around the block and padding *)
(* boundaries, and refusal of every altered part, by the real parameters.   *)
(***************************************************************************)
EXTENDS HashedElGamal, TLC
CONSTANTS Lengths, Maxes
VARIABLES len, cap, ph, kind, at
vars == <<len, cap, ph, kind, at>>
S == "0123456789ABCDEF"
K == PPow(G, S)
R == "7777"
Seed == "05"
Msg(n) == TextRepeat("A5", n)
Kinds == {"none", "data", "mac", "pad", "key", "seed", "cut", "grow"}
Init == len \in Lengths /\ cap \in Maxes /\ ph = 0 /\ kind = "none" /\ at = 1
Bits == {"01", "80"}
Accepted == ~HeRefused(Msg(len), cap, TRUE)
Enc1 == HeEncrypt(Msg(len), R, K, Seed, cap)
DataLen == IF cap = 0 THEN len ELSE cap + 2
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED <<len, cap>> /\ kind' \in Kinds
        /\ at' \in (IF kind' = "data" THEN {i \in {1, 2, 3, 32, 33, DataLen \div 2 + 1, DataLen} : i <= DataLen} ELSE IF kind' = "mac" THEN {1, 16, 32} ELSE {1})
Flip(b, i) == BSub(b, 1, i - 1) \o BXor(BSub(b, i, i), "01") \o BSub(b, i + 1, BLen(b))
Altered(x) == CASE kind = "data" -> [x EXCEPT !.data = Flip(@, at)]
                [] kind = "mac" -> [x EXCEPT !.mac = Flip(@, at)]
                [] kind = "pad" -> [x EXCEPT !.pad = PMul(@, G)]
                [] kind = "cut" -> [x EXCEPT !.data = BSub(@, 1, BLen(@) - 32)]
                [] kind = "grow" -> [x EXCEPT !.data = @ \o BZero(32)]
                [] OTHER -> x
Aligned == DataLen % Block = 0 /\ DataLen > 0
Holds == (ph = 1 /\ Accepted /\ Aligned) =>
    LET x == Enc1 look == cap # 0
        out == HeDecrypt(Altered(x), IF kind = "key" THEN "02" ELSE S, IF kind = "seed" THEN "06" ELSE Seed, look)
    IN IF kind = "none" THEN out = <<IF cap > 0 /\ len > cap THEN Msg(cap) ELSE Msg(len)>> ELSE out = <<>>
\* the size of the ciphertext says nothing about the length of a padded message
Uniform == (ph = 1 /\ kind = "none" /\ cap > 0) => BLen(HePlain(Msg(len), cap)) = cap + 2
=============================================================================
