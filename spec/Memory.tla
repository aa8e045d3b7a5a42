------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Group elements and the memory they lie in.  `held` is what each name     *)
(* holds; `back` is the set of values that can be read in memory given back *)
(* to the allocator.  Releasing an element - dropping it, or giving its     *)
(* name another value - gives its memory back wiped.                        *)
(***************************************************************************)
EXTENDS TLC, FiniteSets
VARIABLES held, back
CONSTANT Left(_)     \* what can still be read of a value that was released: {} for a full wipe

MemInit == held = <<>> /\ back = {}
Releases(n) == back' = back \cup (IF n \in DOMAIN held THEN Left(held[n]) ELSE {})
Hold(n, v) == held' = (n :> v) @@ held /\ Releases(n)
CopyTo(to, from) == Hold(to, held[from])
Release(n) == held' = [k \in DOMAIN held \ {n} |-> held[k]] /\ Releases(n)
Clean == back = {}
=============================================================================
