------------------------------ MODULE MC_Memory -----------------------------
(* Every order of making, copying, replacing and dropping elements of two words. *)
EXTENDS Memory, Integers
CONSTANTS Names, Words, Wipe
Values == Words \X Words
LeftOf(v) == CASE Wipe = "all" -> {} [] Wipe = "first" -> {v[2]} \ {0} [] Wipe = "none" -> {v[1], v[2]} \ {0}
vars == <<held, back>>
Init == MemInit
Next == \/ \E n \in Names, v \in Values : Hold(n, v)
        \/ \E n \in Names, m \in DOMAIN held : CopyTo(n, m)
        \/ \E n \in DOMAIN held : Release(n)
=============================================================================
