------------------------------- MODULE MC_Prim ------------------------------
(***************************************************************************)
(* The primitive operators (Java) against definitions in plain TLA+, for    *)
(* every pair of elements of a toy group, and against published vectors.    *)
(* Run with -Deg.p=17 -Deg.q=0B -Deg.g=02 (p = 23, q = 11, g = 2).          *)
(***************************************************************************)
EXTENDS EGHash, TLC
VARIABLES a, b
p == 23
q == 11
g == 2
Init == a \in 0..(p - 1) /\ b \in 0..(p - 1)
Next == UNCHANGED <<a, b>>

Digits == "0123456789ABCDEF"
Hex1(i) == TSub(Digits, i + 1, i + 1)
RECURSIVE Num(_), PowT(_, _, _)
Num(i) == IF i < 256 THEN Hex1(i \div 16) \o Hex1(i % 16) ELSE Num(i \div 256) \o Num(i % 256)
PowT(x, e, m) == IF e = 0 THEN 1 % m ELSE (x * PowT(x, e - 1, m)) % m

Naturals == /\ IAdd(Num(a), Num(b)) = Num(a + b) /\ IMul(Num(a), Num(b)) = Num(a * b)
            /\ (a >= b => ISub(Num(a), Num(b)) = Num(a - b)) /\ ILt(Num(a), Num(b)) = (a < b)
            /\ (b > 0 => IMod(Num(a), Num(b)) = Num(a % b) /\ IDiv(Num(a), Num(b)) = Num(a \div b))
            /\ IMul(Num(a * 300), Num(b)) = Num(a * 300 * b)
FieldP == /\ PAdd(Num(a), Num(b)) = Num((a + b) % p) /\ PMul(Num(a), Num(b)) = Num((a * b) % p)
          /\ PPow(Num(a), Num(b)) = Num(PowT(a, b, p)) /\ (a > 0 => (PMul(PInv(Num(a)), Num(a)) = Num(1)))
FieldQ == (a < q /\ b < q) => /\ QAdd(Num(a), Num(b)) = Num((a + b) % q) /\ QMul(Num(a), Num(b)) = Num((a * b) % q)
                              /\ QSub(Num(a), Num(b)) = Num((a + q - b) % q) /\ QPow(Num(a), Num(b)) = Num(PowT(a, b, q))
Members == /\ Residue(Num(a)) = (a > 0 /\ \E e \in 0..(q - 1) : PowT(g, e, p) = a)
           /\ InP(Num(a)) /\ InQ(Num(a)) = (a < q)
XorT(x, y) == LET R[i \in 0..8] == IF i = 8 THEN 0 ELSE LET w == 2^i bx == (x \div w) % 2 by == (y \div w) % 2 IN (IF bx = by THEN 0 ELSE w) + R[i + 1] IN R[0]
Bytes == LET n == 11 * a m == 11 * b IN
         /\ BXor(Num(n), Num(m)) = Num(XorT(n, m)) /\ BXor(Num(n) \o "00", Num(m) \o Num(n)) = Num(XorT(n, m)) \o Num(n)
         /\ BLen(Num(n) \o Num(m)) = 2 /\ BSub(Num(n) \o Num(m), 2, 2) = Num(m) /\ BSub(Num(n) \o Num(m), 1, 0) = ""
         /\ BEInt(Num(n) \o Num(m)) = 256 * n + m /\ BE16(256 * n + m) = Num(n) \o Num(m) /\ LE32(256 * n + m) = Num(m) \o Num(n) \o "0000"
         /\ BNum("00" \o Num(n) \o Num(m)) = Num(256 * n + m) /\ BFix(Num(n), 3) = "0000" \o Num(n) /\ BZero(3) = "000000" /\ BZero(0) = ""
         /\ DAdd(DStr(n), DStr(m)) = DStr(n + m) /\ DLt(DStr(n), DStr(m)) = (n < m) /\ DHex(DStr(n)) = Num(n) /\ DInt(DStr(n)) = n
         /\ TwoPow(a) = Num(2^a) /\ ToString(n) = DStr(n)
\* the reduced hash is the hash of the delimited text, modulo q
Hashing == LET x == Num(a) y == DStr(b) IN
           /\ HashBar(<<x, y>>) = IMod(BNum(Sha256("|" \o x \o "|" \o y \o "|")), ParamQ)
           /\ HashBar(<<x>>) = IMod(BNum(Sha256("|" \o x \o "|")), ParamQ)
           /\ H(<<>>) = HashBar(<<"null">>)
Vectors ==
    /\ Sha256("abc") = "BA7816BF8F01CFEA414140DE5DAE2223B00361A396177A9CB410FF61F20015AD"
    /\ Sha256("") = "E3B0C44298FC1C149AFBF4C8996FB92427AE41E4649B934CA495991B7852B855"
    /\ Sha256("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq") = "248D6A61D20638B8E5C026930C3E6039A33CE45964FF2167F6ECEDD419DB06C1"
    \* RFC 4231, cases 1, 2 and 3
    /\ Hmac(TextRepeat("0B", 20), TextBytes("Hi There")) = "B0344C61D8DB38535CA8AFCEAF0BF12B881DC200C9833DA726E9376C2E32CFF7"
    /\ Hmac(TextBytes("Jefe"), TextBytes("what do ya want for nothing?")) = "5BDCC146BF60754E6A042426089575C75A003F089D2739839DEC58B964EC3843"
    /\ Hmac(TextRepeat("AA", 20), TextRepeat("DD", 50)) = "773EA91E36800E46854DB8EBD09181A72959098B3EF8C122D9635514CED565FE"
    /\ TextBytes("aé") = "61C3A9" /\ BText("61C3A9") = "aé" /\ Upper("aF") = "AF" /\ LowerText("AF") = "af" /\ TLen("abc") = 3 /\ TTail("abc") = "bc" /\ TSub("abcd", 2, 3) = "bc"
    /\ IsHexText("0aF") /\ ~IsHexText("") /\ ~IsHexText("0x") /\ TContains("abc", "bc") /\ ~TContains("abc", "cb")
    /\ TJoin(<<"a", "b">>, ",") = "a,b" /\ TJoin(<<>>, ",") = "" /\ JsonText("a\"b\\") = "\"a\\\"b\\\\\"" /\ TextLt("a", "b") /\ TextLt("Z", "a") /\ ~TextLt("a", "a") /\ TextLt("a", "aa")
=============================================================================
