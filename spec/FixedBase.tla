------------------------------ MODULE FixedBase -----------------------------
(***************************************************************************)
(* The cache of fixed-base tables: a map from the base's text to a table of *)
(* powers, filled on first use.  One action is one critical section of the  *)
(* code: finding or making a table is atomic, using it needs no lock.       *)
(***************************************************************************)
EXTENDS EGGroup, TLC
\* a table for windows of W bits and Rows rows: row i, column j holds base^(j * 2^(W*i))
NumOf(i) == DHex(DStr(i))
Table(base, W, Rows) == [i \in 0..(Rows - 1) |-> [j \in 1..(2^W - 1) |-> PPow(base, IMul(NumOf(j), TwoPow(W * i)))]]
\* how the table is filled: each row continues from the last product of the previous one
RECURSIVE Fill(_, _, _)
Fill(rowBase, W, rows) == IF rows = 0 THEN <<>> ELSE
    LET RECURSIVE Run(_, _)
        Run(j, acc) == IF j = 2^W THEN <<>> ELSE <<acc>> \o Run(j + 1, PMul(acc, rowBase))
        row == Run(1, rowBase)
    IN <<row>> \o Fill(PMul(row[2^W - 1], rowBase), W, rows - 1)
Slice(e, W, i) == (e \div 2^(W * i)) % 2^W
RECURSIVE Use(_, _, _, _)
Use(tab, e, W, i) == IF i = 0 THEN One ELSE LET d == Slice(e, W, i - 1) rest == Use(tab, e, W, i - 1) IN IF d = 0 THEN rest ELSE PMul(rest, tab[i][d])
=============================================================================
