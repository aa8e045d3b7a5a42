------------------------------ MODULE NonceDefs -----------------------------
(* Nonce sequences: every nonce is a hash of the (headed) seed and an index. *)
EXTENDS EGHash, TLC
SeqSeed(seed, hdr) == IF hdr = <<>> THEN seed ELSE H(<<seed, hdr[1]>>)    \* hdr: optional text form
NonceAt(base, i)       == H(<<base, TU(i)>>)                              \* i: decimal text
NonceAtHdr(base, i, h) == H(<<base, TU(i), TS(h)>>)
NonceOf(seed, hdr, i)  == NonceAt(SeqSeed(seed, <<hdr>>), i)
=============================================================================
