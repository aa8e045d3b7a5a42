------------------------------- MODULE EGHash -------------------------------
(***************************************************************************)
(* The hash function of ElectionGuard: SHA-256 over "|" t1 "|" ... tn "|", *)
(* reduced modulo Q, where ti is the one text form of item i.              *)
(***************************************************************************)
EXTENDS EGGroup

NullText == "null"
TP(x)    == x                                         \* element: canonical hex
TU(d)    == IF d = "0" THEN NullText ELSE d           \* unsigned integer, decimal text
TS(s)    == IF s = "" THEN NullText ELSE s            \* text
TB(b)    == IF b = "" THEN NullText ELSE b            \* byte string: all its bytes
H(texts) == IF texts = <<>> THEN HashBar(<<NullText>>) ELSE HashBar(texts)
TL(texts) == IF texts = <<>> THEN NullText ELSE HashBar(texts)      \* nested list
TO(opt)  == IF opt = <<>> THEN NullText ELSE opt[1]                 \* optional, already in text form
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

\* items as they occur in traces: [t |-> kind, v |-> value, ...]
ItemText(it) ==
  CASE it.t = "null" -> NullText
    [] it.t = "u64"  -> TU(it.v)
    [] it.t = "str"  -> TS(it.v)
    [] it.t = "bytes" -> TB(it.v)
    [] it.t \in {"p", "q"} -> TP(it.v)                               \* element, however passed
    [] it.t = "h"    -> H(<<it.v[1], it.v[2]>>)                      \* a hashable (a ciphertext)
    [] it.t = "vu64" -> TL(MapSeq(it.v, TU))
    [] it.t = "vstr" -> TL(MapSeq(it.v, TS))
    [] it.t \in {"vp", "vq"} -> TL(it.v)
    [] it.t = "vh"   -> TL(MapSeq(it.v, LAMBDA x : H(<<x[1], x[2]>>)))
HashItems(items) == H(MapSeq(items, ItemText))
=============================================================================
