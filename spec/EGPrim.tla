------------------------------- MODULE EGPrim -------------------------------
(***************************************************************************)
(* The primitive operations of the specification.  Each operator here is   *)
(* overridden by the Java class EGPrim (java/EGPrim.java), because TLC's   *)
(* own integers have 32 bits.  Conventions:                                *)
(*   Num   : canonical upper-case hex, whole bytes, "00" for zero          *)
(*   Bytes : fixed-width upper-case hex (possibly "")                      *)
(*   Dec   : decimal text of an unsigned 64-bit quantity                   *)
(*   Text  : any string                                                    *)
(* The group (P, Q, G) is the standard ElectionGuard group unless TLC is   *)
(* started with -Deg.p, -Deg.q, -Deg.g, which instantiates the same        *)
(* specification over a toy group for exhaustive checking.                 *)
(* spec/MC_Prim.tla checks these operators against pure TLA+ definitions   *)
(* on every element of a toy group, and against published test vectors.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

ParamP == CHOOSE x : TRUE
ParamQ == CHOOSE x : TRUE
ParamG == CHOOSE x : TRUE

IAdd(a, b) == CHOOSE x : TRUE      \* unbounded naturals
IMul(a, b) == CHOOSE x : TRUE
ISub(a, b) == CHOOSE x : TRUE      \* requires a >= b
IMod(a, m) == CHOOSE x : TRUE
MaxP == CHOOSE x : TRUE            \* 2^4096 - 1
MaxQ == CHOOSE x : TRUE            \* 2^256 - 1
TwoPow(n) == CHOOSE x : TRUE
IDiv(a, b) == CHOOSE x : TRUE
ILt(a, b)  == CHOOSE x : TRUE

PPow(a, e) == CHOOSE x : TRUE      \* a^e mod P
PMul(a, b) == CHOOSE x : TRUE
PInv(a)    == CHOOSE x : TRUE
PAdd(a, b) == CHOOSE x : TRUE

QAdd(a, b) == CHOOSE x : TRUE
QSub(a, b) == CHOOSE x : TRUE
QMul(a, b) == CHOOSE x : TRUE
QPow(a, b) == CHOOSE x : TRUE

Sha256(text)   == CHOOSE x : TRUE  \* 32 Bytes
HashBar(texts) == CHOOSE x : TRUE  \* SHA-256 of "|" t1 "|" ... tn "|", mod Q
Hmac(key, msg) == CHOOSE x : TRUE  \* HMAC-SHA-256, Bytes

BXor(a, b)         == CHOOSE x : TRUE
BLen(a)            == CHOOSE x : TRUE
BSub(a, from, to)  == CHOOSE x : TRUE
BZero(n)           == CHOOSE x : TRUE
BFix(a, n)         == CHOOSE x : TRUE   \* Num -> n bytes, big endian
BNum(a)            == CHOOSE x : TRUE   \* Bytes -> Num
LE32(n)            == CHOOSE x : TRUE
BE16(n)            == CHOOSE x : TRUE
BEInt(a)           == CHOOSE x : TRUE   \* Bytes -> TLC integer
TextBytes(s)       == CHOOSE x : TRUE   \* UTF-8
Upper(s)           == CHOOSE x : TRUE
LowerText(s)       == CHOOSE x : TRUE
TLen(s)            == CHOOSE x : TRUE
IsHexText(s)       == CHOOSE x : TRUE
TTail(s)           == CHOOSE x : TRUE   \* the text without its first character
TSub(s, i, j)      == CHOOSE x : TRUE   \* characters i..j (1-based, inclusive)
TJoin(seq, sep)    == CHOOSE x : TRUE   \* concatenation with a separator
TContains(s, t)     == CHOOSE x : TRUE
JsonText(s)        == CHOOSE x : TRUE   \* "..." with JSON escapes
TextLt(a, b)       == CHOOSE x : TRUE   \* UTF-8 lexicographic
TextRepeat(s, n)   == CHOOSE x : TRUE
BText(b)           == CHOOSE x : TRUE   \* Bytes -> the text of which they are the UTF-8 form

DLt(a, b) == CHOOSE x : TRUE
DAdd(a, b) == CHOOSE x : TRUE
DHex(a)   == CHOOSE x : TRUE
DInt(a)   == CHOOSE x : TRUE
DStr(a)   == CHOOSE x : TRUE

Pick(seed, n)      == CHOOSE x : TRUE   \* 0..n-1, a function of the seed text
PickBytes(seed, n) == CHOOSE x : TRUE
EnvText(name, dflt) == CHOOSE x : TRUE
=============================================================================
