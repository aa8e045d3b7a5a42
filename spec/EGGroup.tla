------------------------------ MODULE EGGroup -------------------------------
(***************************************************************************)
(* The arithmetic of the two prime fields, as the library's group.hpp      *)
(* documents it: every operation on operands in range returns the exact    *)
(* mathematical result in canonical form.                                  *)
(***************************************************************************)
EXTENDS EGPrim, FiniteSets, SequencesExt

Zero == "00"
One  == "01"
Two  == "02"
P == ParamP
Q == ParamQ
G == ParamG

InP(x) == ILt(x, P)
InQ(x) == ILt(x, Q)
Pred(x) == ISub(x, One)

\* x is a member of the subgroup of order Q
Residue(x) == InP(x) /\ x # Zero /\ PPow(x, Q) = One
PDiv(a, b) == PMul(a, PInv(b))

RECURSIVE QSum(_), PProd(_)
QSum(s)  == IF s = <<>> THEN Zero ELSE QAdd(Head(s), QSum(Tail(s)))
PProd(s) == IF s = <<>> THEN One ELSE PMul(Head(s), PProd(Tail(s)))

\* operand domains and results of each arithmetic function
ArithDom(f, x) ==
  CASE f \in {"add_mod_p", "mul_mod_p", "pow_pp", "lt_p", "eq_p", "ne_p"} -> InP(x[1]) /\ InP(x[2])
    [] f \in {"pow_pq", "pow_fixed"} -> InP(x[1]) /\ InQ(x[2])
    [] f \in {"add_mod_q", "sub_mod_q", "lt_q", "eq_q", "ne_q"} -> InQ(x[1]) /\ InQ(x[2])
    [] f = "a_plus_bc" -> InQ(x[1]) /\ InQ(x[2]) /\ InQ(x[3])
    [] f \in {"sub_from_q", "to_p", "g_pow_pq"} -> InQ(x[1])
    [] f = "g_pow_pp" -> InP(x[1])
    [] OTHER -> TRUE

ArithResult(f, x) ==
  CASE f = "add_mod_p"  -> PAdd(x[1], x[2])
    [] f = "mul_mod_p"  -> PMul(x[1], x[2])
    [] f = "mod_p"      -> IMod(x[1], P)
    [] f = "pow_pp"     -> PPow(x[1], x[2])
    [] f = "pow_pq"     -> PPow(x[1], x[2])
    [] f = "pow_fixed"  -> PPow(x[1], x[2])
    [] f = "g_pow_pp"   -> PPow(G, x[1])
    [] f = "g_pow_pq"   -> PPow(G, x[1])
    [] f = "add_mod_q"  -> QAdd(x[1], x[2])
    [] f = "sub_mod_q"  -> QSub(x[1], x[2])
    [] f = "a_plus_bc"  -> QAdd(x[1], QMul(x[2], x[3]))
    [] f = "sub_from_q" -> QSub(Zero, x[1])
    [] f = "to_p"       -> x[1]
    [] f = "lt_p"       -> ILt(x[1], x[2])
    [] f = "lt_q"       -> ILt(x[1], x[2])
    [] f = "eq_p"       -> x[1] = x[2]
    [] f = "eq_q"       -> x[1] = x[2]
    [] f = "ne_p"       -> x[1] # x[2]
    [] f = "ne_q"       -> x[1] # x[2]
    [] f = "inbounds_p" -> InP(x[1])
    [] f = "inbounds_q" -> InQ(x[1])
    [] f = "residue"    -> Residue(x[1])
    [] f = "add_list_q" -> QSum(x)
    [] f = "mul_list"   -> PProd([i \in DOMAIN x |-> BNum(TTail(x[i]))])

-----------------------------------------------------------------------------
(* Conversions.  A source (how, x) denotes a natural number or nothing.     *)
Modulus(d) == IF d = "p" THEN P ELSE Q
ByteSize(d) == IF d = "p" THEN 512 ELSE 32

Denotes(how, x, d) ==
  CASE how = "hex"   -> IsHexText(x)
    [] how = "words" -> Len(x) <= ByteSize(d) \div 8
    [] how \in {"bytes", "bytesptr"} -> BLen(x) <= ByteSize(d)
    [] OTHER -> TRUE
RECURSIVE WordsVal(_)
WordsVal(x) == IF x = <<>> THEN Zero
               ELSE IAdd(BNum(Head(x)), IMul(WordsVal(Tail(x)), "010000000000000000"))
Denoted(how, x) ==
  CASE how = "hex"   -> BNum(Upper(x))
    [] how = "words" -> WordsVal(x)                 \* little-endian 64-bit words
    [] how = "u64"   -> DHex(x)
    [] OTHER         -> BNum(x)

Fits(v, d) == ILt(v, IF d = "p" THEN IAdd(MaxP, One) ELSE IAdd(MaxQ, One))

\* "must" = has to be accepted, "refuse" = has to be refused, "may" = either.
\* The modulus itself is neither promised nor excluded (the library's own tests create it).
ConvVerdict(how, x, d, un) ==
  IF ~Denotes(how, x, d) THEN "refuse"
  ELSE LET v == Denoted(how, x) IN
       IF ~Fits(v, d) THEN "refuse"
       ELSE IF ILt(v, Modulus(d)) THEN (IF how \in {"bytes", "bytesptr"} /\ BLen(x) = 0 THEN "may" ELSE "must")
       ELSE IF un THEN "must"
       ELSE IF v = Modulus(d) THEN "may" ELSE "refuse"

\* what reading an element back must show
Shows(r, v, d) == r.v = v /\ r.hex = v /\ r.hex2 = v /\ r.bytes = BFix(v, ByteSize(d))
=============================================================================
