---------------------------- MODULE Trace_Crypto ----------------------------
(* Trace specification: hashing, nonces, ElGamal, proofs, hashed ElGamal.   *)
EXTENDS TraceBase, EGNonces, ChaumPedersen, HashedElGamal
VARIABLES tr, l, why
vars == <<tr, l, why, nseqs>>
Ev == Traces[tr].ev[l + 1]

HdrText(h) == IF h = <<>> THEN <<>> ELSE <<IF h[1].t = "str" THEN TS(h[1].v) ELSE h[1].v>>
RECURSIVE DRange(_, _)
DRange(i, k) == IF k = 0 THEN <<>> ELSE <<i>> \o DRange(DAdd(i, "1"), k - 1)

HashC(e) == Clause("P09", "hash of the items", Ok(e) /\ e.r.v = HashItems(e.items) /\ e.r.again = e.r.v
                                                /\ (e.r.one = <<>> \/ e.r.one[1] = e.r.v))
KeyC(e) ==
    IF KeyOk(e.s) THEN ClauseOf({"P16"}, "key pair", Ok(e) /\ e.r.s = e.s /\ e.r.k = PublicKey(e.s))
                       \cup ClauseOf({"P18"}, "key pair copy", Ok(e) /\ e.r.copy = <<e.s, PublicKey(e.s)>> /\ e.r.after = e.r.copy /\ ("asg" \in DOMAIN e.r => e.r.asg = e.r.copy))
    ELSE Clause("P16", "key below two refused", Refused(e))
EncC(e) ==
    IF e.n = Zero THEN Clause("P16", "zero nonce refused", Refused(e))
    ELSE Clause("P16", "ElGamal encryption", Ok(e) /\ e.r.c = Enc(e.m, e.n, e.k))
         \cup Clause("P09", "ciphertext hash", Ok(e) /\ e.r.h = CipherHash(e.r.c))
PreC(e) == Clause("P16", "ElGamal encryption with given powers",
              Ok(e) /\ e.r.c = <<e.g, PMul(PPow(G, DHex(e.m)), e.kr)>> /\ e.r.g = e.g /\ e.r.kr = e.kr)
DecC(e) == Clause("P16", "ElGamal decryption", Ok(e) /\ e.r.v = Dec(e.c, e.s))
AddC(e) == Clause("P16", "homomorphic addition", IF e.cs = <<>> THEN Refused(e) ELSE Ok(e) /\ e.r.c = Combine(e.cs) /\ e.r.after = e.cs)
CopyC(e) == ClauseOf({"P16", "P18"}, "ciphertext copies",
    Ok(e) /\ e.r.copy = e.c /\ e.r.clone = e.c /\ e.r.made = e.c /\ e.r.later = e.c /\ e.r.assigned = e.d
          /\ e.r.eq = (e.c = e.d) /\ e.r.ne = (e.c # e.d) /\ e.r.eqc)

\* a proof made by the library for a true statement; for a false one only "no crash" is promised
DjTrue(e) == e.c = Enc(e.m, e.n, e.k)
DjMakeC(e) ==
    IF e.m \notin {"0", "1"} THEN Clause("P04", "plaintext other than 0 or 1 refused", Refused(e))
    ELSE IF ~Ok(e) THEN Clause("P04", "proof is made", FALSE)
    ELSE Clause("P04", "made proof satisfies the equations", DjTrue(e) => DjValid(e.c, e.k, e.h, e.r.p))
         \cup Clause("P04", "made proof is accepted", DjTrue(e) => e.r.valid)
         \cup ClauseOf({"P04", "P05"}, "verdict on the made proof", e.r.valid = DjValid(e.c, e.k, e.h, e.r.p))
         \cup Clause("P10", "seeded proof is a function of the seed",
                 e.mode = "seed" => (e.r.p = DjSeeded(e.c, e.n, e.k, e.h, e.seed, IF e.m = "0" THEN 0 ELSE 1) /\ e.r.again = e.r.p))
         \cup Clause("P10", "randomised proofs are fresh", e.mode = "rand" =>
                 /\ {e.r.p.a0, e.r.p.a1} \cap {e.r.again.a0, e.r.again.a1} = {}
                 /\ {e.r.p.c0, e.r.p.c1} \cap {e.r.again.c0, e.r.again.c1} = {})
         \cup Clause("P18", "proof copies", e.r.copy = e.r.p /\ e.r.clone = e.r.p /\ ("asg" \in DOMAIN e.r => e.r.asg = e.r.p))
DjValidC(e) == ClauseOf({"P05", "P04"}, "verdict on a disjunctive proof", Ok(e) /\ e.r.v = DjValid(e.c, e.k, e.h, e.p))
CcTrue(e) == e.c = Enc(e.l, e.n, e.k)
CcMakeC(e) ==
    IF ~Ok(e) THEN Clause("P04", "proof is made", FALSE)
    ELSE Clause("P04", "made constant proof is valid and accepted", CcTrue(e) => CcValid(e.c, e.k, e.h, e.r.p) /\ e.r.valid)
         \cup ClauseOf({"P04", "P05"}, "verdict on the made constant proof", e.r.valid = CcValid(e.c, e.k, e.h, e.r.p))
         \cup Clause("P10", "constant proof is a function of the seed",
                 e.r.p = CcSeeded(e.c, e.n, e.k, e.seed, e.h, e.l) /\ e.r.again = e.r.p)
         \cup Clause("P18", "proof copies", e.r.copy = e.r.p /\ ("asg" \in DOMAIN e.r => e.r.asg = e.r.p))
CcValidC(e) == ClauseOf({"P05", "P04"}, "verdict on a constant proof", Ok(e) /\ e.r.v = CcValid(e.c, e.k, e.h, e.p))

HeEncC(e) ==
    IF HeRefused(e.msg, e.max, e.trunc) THEN Clause("P15", "message that does not fit refused", Refused(e))
    ELSE Clause("P15", "hashed ElGamal encryption", Ok(e) /\ e.r.x = HeEncrypt(e.msg, e.n, e.k, e.seed, e.max))
         \cup Clause("P09", "hashed ElGamal hash", Ok(e) /\ e.r.h = HeHash(e.r.x))
         \cup Clause("P18", "hashed ElGamal copies", Ok(e) /\ e.r.copy = e.r.x /\ e.r.clone = e.r.x /\ ("asg" \in DOMAIN e.r => e.r.asg = e.r.x))
HeDecC(e) == LET m == HeDecrypt(e.x, e.s, e.seed, e.look) IN
    Clause("P15", "hashed ElGamal decryption", IF m = <<>> THEN Refused(e) ELSE Ok(e) /\ e.r.v = m[1])
HeCmpC(e) == Clause("P15", "hashed ElGamal comparison", Ok(e) /\ e.r.eq = (e.x = e.y) /\ e.r.ne = (e.x # e.y))
             \cup Clause("P09", "hashed ElGamal hash", Ok(e) /\ e.r.h = HeHash(e.x))

PureClauses(e) ==
    CASE e.op = "hash" -> HashC(e)
      [] e.op = "keypair" -> KeyC(e)
      [] e.op = "eg_encrypt" -> EncC(e)
      [] e.op = "eg_pre" -> PreC(e)
      [] e.op = "eg_decrypt" -> DecC(e)
      [] e.op = "eg_add" -> AddC(e)
      [] e.op = "eg_copy" -> CopyC(e)
      [] e.op = "dj_make" -> DjMakeC(e)
      [] e.op = "dj_valid" -> DjValidC(e)
      [] e.op = "cc_make" -> CcMakeC(e)
      [] e.op = "cc_valid" -> CcValidC(e)
      [] e.op = "he_encrypt" -> HeEncC(e)
      [] e.op = "he_decrypt" -> HeDecC(e)
      [] e.op = "he_cmp" -> HeCmpC(e)
      [] e.op = "exit" -> ExitC(e)
NOps == {"n_new", "n_get", "n_hdr", "n_next", "n_list"}
NStep(e) ==
    \/ e.op = "n_new" /\ NNew(e.n, e.seed, HdrText(e.hdr)) /\ why' = Clause("P10", "new sequence", Ok(e))
    \/ e.op = "n_get" /\ NAdvance(e.n, e.i)
       /\ why' = Clause("P10", "nonce at an index", Ok(e) /\ e.r.v = NonceAt(nseqs[e.n].base, e.i))
    \/ e.op = "n_hdr" /\ NAdvance(e.n, e.i)
       /\ why' = Clause("P10", "nonce at an index with a header", Ok(e) /\ e.r.v = NonceAtHdr(nseqs[e.n].base, e.i, e.h))
    \/ e.op = "n_next" /\ NAdvance(e.n, nseqs[e.n].next)
       /\ why' = Clause("P10", "next nonce", Ok(e) /\ e.r.v = NonceAt(nseqs[e.n].base, nseqs[e.n].next))
    \/ e.op = "n_list"
       /\ (IF e.k = 0 THEN UNCHANGED nseqs ELSE NAdvance(e.n, DAdd(e.i, DStr(e.k - 1))))
       /\ why' = Clause("P10", "list of nonces", Ok(e) /\ e.r.v = MapSeq(DRange(e.i, e.k), LAMBDA i : NonceAt(nseqs[e.n].base, i)))

Init == tr \in 1..Len(Traces) /\ l = 0 /\ why = {} /\ NInit
Next == /\ l < Len(Traces[tr].ev) /\ why = {}
        /\ l' = l + 1 /\ tr' = tr
        /\ (IF Ev.op \in NOps THEN NStep(Ev) ELSE UNCHANGED nseqs /\ why' = PureClauses(Ev))
Accepted == why = {}
=============================================================================
