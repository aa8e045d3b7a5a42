------------------------------ MODULE GenWire -------------------------------
(* Documents with one defect each, from the defects Wire knows. *)
EXTENDS GenBase, Wire

TextFmts == <<"json", "bson", "msgpack", "pretty", "ascii">>
Raws(s, fmt) == << <<"cut", 0>>, <<"cut", 999>> >> \o [i \in 1..5 |-> <<"cut", Pick(S(S(s, "cut"), i), 1000)>>]
    \o (IF fmt \in {"json", "pretty", "ascii"} THEN << <<"tail", 120>>, <<"tail", 125>> >> ELSE << <<"tail", 0>>, <<"tail", 255>> >>)
Sampled(s, xs, n) == IF Len(xs) <= n THEN xs ELSE [i \in 1..n |-> xs[1 + Pick(S(s, i), Len(xs))]]
Spoil(s, kind, d, fmt, n) == [op |-> "spoil", kind |-> kind, doc |-> d, fmt |-> fmt, raw |-> Raws(s, fmt),
    what |-> Sampled(S(s, "w"), DefectsOf(kind, d), n) \o Sampled(S(s, "iw"), InnerDefectsOf(kind, d), n \div 2)]
=============================================================================
