---------------------------- MODULE HashedElGamal ---------------------------
(* Hashed ElGamal with a 32-byte block key stream and an HMAC. All in Bytes. *)
EXTENDS ElGamal
Block == 32
Capacity == 510                \* the padded size offered by the library, after the 2-byte length
RECURSIVE CatUpTo(_, _, _)
Ceil(n, b) == (n + b - 1) \div b
SessionKey(pad, beta) == BFix(H(<<pad, beta>>), 32)
BlockKey(sk, seed, n, i) == Hmac(sk, LE32(i) \o BFix(seed, 32) \o LE32(n * 256))
\* key stream of blocks i..n
CatUpTo(F(_), i, n) == IF i > n THEN "" ELSE F(i) \o CatUpTo(F, i + 1, n)
KeyStream(sk, seed, n) == CatUpTo(LAMBDA i : BlockKey(sk, seed, n, i), 1, n)
Mac(sk, seed, n, pad, ct) == Hmac(BlockKey(sk, seed, n, 0), BFix(pad, 512) \o ct)

\* max = 0: no padding.  A request is "refuse" or the padded plaintext.
HeRefused(msg, max, trunc) == IF max = 0 THEN BLen(msg) % Block # 0 ELSE BLen(msg) > max /\ ~trunc
HePlain(msg, max) ==
    IF max = 0 THEN msg
    ELSE LET m == IF BLen(msg) > max THEN BSub(msg, 1, max) ELSE msg
             pl == max - BLen(m)
         IN BE16(pl) \o m \o BZero(pl)
HeUnder(pad, beta, pt, seed) ==
    LET n == BLen(pt) \div Block sk == SessionKey(pad, beta)
        ct == BXor(pt, KeyStream(sk, seed, n))
    IN [pad |-> pad, data |-> ct, mac |-> Mac(sk, seed, n, pad, ct)]
HeEncrypt(msg, r, k, seed, max) == HeUnder(PPow(G, r), PPow(k, r), HePlain(msg, max), seed)

\* decryption: <<>> when it must fail, <<bytes>> otherwise
HeDecrypt(x, s, seed, look) ==
    LET n == BLen(x.data) \div Block IN
    IF BLen(x.data) = 0 \/ BLen(x.data) % Block # 0 THEN <<>>
    ELSE LET sk == SessionKey(x.pad, PPow(x.pad, s)) IN
         IF x.mac # Mac(sk, seed, n, x.pad, x.data) THEN <<>>
         ELSE LET pt == BXor(x.data, KeyStream(sk, seed, n)) IN
              IF ~look THEN <<pt>>
              ELSE LET pl == BEInt(BSub(pt, 1, 2)) IN
                   IF pl > BLen(pt) - 2 THEN <<>>
                   ELSE IF BSub(pt, BLen(pt) - pl + 1, BLen(pt)) # BZero(pl) THEN <<>>
                   ELSE <<BSub(pt, 3, BLen(pt) - pl)>>
HeHash(x) == H(<<x.pad, TB(x.data), TB(x.mac)>>)
=============================================================================
