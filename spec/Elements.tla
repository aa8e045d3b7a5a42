------------------------------ MODULE Elements ------------------------------
(***************************************************************************)
(* A register machine over group elements: what a program holding elements *)
(* of Z_p and Z_q observes.  Whether a base is marked "fixed" (and a        *)
(* lookup table is used) and which tables exist is invisible: the actions   *)
(* below do not mention it.                                                 *)
(***************************************************************************)
EXTENDS EGGroup, TLC
VARIABLE regs          \* register name -> value (Num)

ElInit == regs = <<>>
Reg(r) == regs[r]

SetReg(r, v) == regs' = (r :> v) @@ regs
New(r, x)      == SetReg(r, x)
Copy(to, from) == SetReg(to, regs[from])
Drop(r)        == regs' = [k \in DOMAIN regs \ {r} |-> regs[k]]
Fix(r)         == UNCHANGED regs
Show(r)        == UNCHANGED regs
Cmp(x, y)      == UNCHANGED regs
Pow(to, b, e)  == SetReg(to, PPow(regs[b], e))
Mul(to, x, y)  == SetReg(to, PMul(regs[x], regs[y]))
Threads        == UNCHANGED regs
=============================================================================
