------------------------------- MODULE MC_Hash ------------------------------
(* The delimited text determines the items' text forms, provided that no     *)
(* text contains the delimiter (Alphabet with "|" is the negative control).  *)
EXTENDS EGHash, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES x, y
Seqs(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == x \in Seqs(MaxLen) /\ y \in Seqs(MaxLen)
Next == UNCHANGED <<x, y>>
Delimited(t) == IF t = <<>> THEN "|null|" ELSE "|" \o TJoin(t, "|") \o "|"
Forms(t) == IF t = <<>> THEN <<NullText>> ELSE MapSeq(t, TS)
Injective == Delimited(Forms(x)) = Delimited(Forms(y)) => Forms(x) = Forms(y)
Hashes == H(MapSeq(x, TS)) = IMod(BNum(Sha256(Delimited(Forms(x)))), Q)
=============================================================================
