---------------------------- MODULE Trace_Group -----------------------------
(* Trace specification for arithmetic, conversions and the element machine. *)
EXTENDS TraceBase, Elements
VARIABLES tr, l, why
vars == <<tr, l, why, regs>>

Ev == Traces[tr].ev[l + 1]

Quiet == UNCHANGED regs

\* ---- pure calls
ArithClauses(e) ==
    IF ~ArithDom(e.f, e.x) THEN {"harness:domain"}
    ELSE ClauseOf(IF e.f \in {"inbounds_p", "inbounds_q", "residue"} THEN {"P06", "P05"}
                  ELSE IF e.f \in {"pow_fixed", "g_pow_pq"} THEN {"P06", "P07"}
                  ELSE IF e.f \in {"lt_p", "lt_q", "eq_p", "eq_q", "ne_p", "ne_q"} THEN {"P06", "P08"}
                  ELSE {"P06"},
                  "result of " \o e.f,
                  IF e.f = "add_list_q" /\ e.x = <<>> THEN Refused(e)
                  ELSE Ok(e) /\ e.r.v = ArithResult(e.f, e.x))

ConstClauses(e) ==
    ClauseOf({"P06", "P08"}, "constants",
        /\ Ok(e)
        /\ e.r.P = P /\ e.r.Q = Q /\ e.r.G = G
        /\ e.r.p0 = Zero /\ e.r.p1 = One /\ e.r.p2 = Two
        /\ e.r.q0 = Zero /\ e.r.q1 = One /\ e.r.q2 = Two
        /\ IAdd(IMul(e.r.R, Q), One) = P)

RandClauses(e) ==
    ClauseOf({"P06", "P10"}, "random draws",
        /\ Ok(e)
        /\ Len(e.r.v) = e.n * (1 + (IF "forks" \in DOMAIN e THEN e.forks ELSE 0))
        /\ \A i \in DOMAIN e.r.v : ILt(e.r.v[i], Modulus(e.d))
        /\ \A i, j \in DOMAIN e.r.v : i # j => e.r.v[i] # e.r.v[j]
        \* a uniform draw has a zero top byte with probability 1/256: 12 draws all short is < 2^-90
        /\ e.n >= 12 => \E i \in 1..e.n : BLen(e.r.v[i]) = ByteSize(e.d)
        \* no hex digit of the drawn values is stuck (40 draws: probability of a false alarm < 2^-29)
        /\ e.n >= 40 => LET w == [i \in 1..e.n |-> BFix(e.r.v[i], ByteSize(e.d))] IN
              \A k \in 1..(2 * ByteSize(e.d)) : \E i \in 2..e.n : TSub(w[i], k, k) # TSub(w[1], k, k))

ConvClauses(e) ==
    LET verdict == ConvVerdict(e.how, e.x, e.d, e.un) IN
    Clause("P08", "conversion from " \o e.how \o " (" \o verdict \o ")",
        CASE verdict = "must"   -> Ok(e) /\ Shows(e.r, Denoted(e.how, e.x), e.d)
          [] verdict = "refuse" -> Refused(e)
          [] verdict = "may"    -> Refused(e) \/ (Ok(e) /\ Shows(e.r, Denoted(e.how, e.x), e.d)))

Pure(e) == /\ Quiet
           /\ why' = CASE e.op = "arith" -> ArithClauses(e)
                       [] e.op = "constants" -> ConstClauses(e)
                       [] e.op = "rand" -> RandClauses(e)
                       [] e.op = "conv" -> ConvClauses(e)

\* ---- the element machine
Both == {"P07", "P08"}
Machine(e) ==
    \/ /\ e.op = "el_new"  /\ New(e.r0, e.x) /\ why' = ClauseOf(Both, "new", Ok(e))
    \/ /\ e.op = "el_copy" /\ Copy(e.to, e.from) /\ why' = ClauseOf(Both, "copy", Ok(e))
    \/ /\ e.op = "el_drop" /\ Drop(e.r0) /\ why' = ClauseOf(Both, "drop", Ok(e))
    \/ /\ e.op = "el_fix"  /\ Fix(e.r0) /\ why' = ClauseOf(Both, "fix", Ok(e))
    \/ /\ e.op = "el_show" /\ Show(e.r0)
       /\ why' = ClauseOf(Both, "element shows its value", Ok(e) /\ Shows(e.r, Reg(e.r0), e.d))
    \/ /\ e.op = "el_cmp"  /\ Cmp(e.x, e.y)
       /\ why' = ClauseOf(Both, "comparison", /\ Ok(e)
                       /\ e.r.eq = (Reg(e.x) = Reg(e.y)) /\ e.r.ne = (Reg(e.x) # Reg(e.y))
                       /\ e.r.lt = ILt(Reg(e.x), Reg(e.y)))
    \/ /\ e.op = "el_pow"  /\ Pow(e.to, e.base, e.e)
       /\ why' = Clause("P07", "power", Ok(e) /\ e.r.v = regs'[e.to])
    \/ /\ e.op = "el_mul"  /\ Mul(e.to, e.x, e.y)
       /\ why' = ClauseOf({"P06", "P07"}, "product", Ok(e) /\ e.r.v = regs'[e.to])
    \/ /\ e.op = "el_threads" /\ Threads
       /\ why' = Clause("P07", "concurrent powers",
                   /\ Ok(e)
                   /\ \A t \in DOMAIN e.jobs : \A i \in DOMAIN e.jobs[t] :
                         e.r.v[t][i] = PPow(e.jobs[t][i][1], e.jobs[t][i][2]))

Init == tr \in 1..Len(Traces) /\ l = 0 /\ why = {} /\ ElInit
Next == /\ l < Len(Traces[tr].ev) /\ why = {}
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ IF Ev.op \in {"arith", "constants", "rand", "conv"} THEN Pure(Ev)
           ELSE IF Ev.op \in {"el_new", "el_copy", "el_drop", "el_fix", "el_show", "el_cmp", "el_pow",
                              "el_mul", "el_threads"} THEN Machine(Ev)
           ELSE IF Ev.op = "exit" THEN why' = {Prop \o ":the process died"} /\ Quiet
           ELSE why' = {"harness:event"} /\ Quiet
Accepted == why = {}
=============================================================================
