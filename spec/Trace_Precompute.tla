-------------------------- MODULE Trace_Precompute --------------------------
(* Recorded runs of the real buffers against Precompute.                    *)
EXTENDS TraceBase, EGGroup
VARIABLES q, t, max, ok, made, out, tr, l, why, vals
Pre == INSTANCE Precompute
vars == <<q, t, max, ok, made, out, tr, l, why, vals>>
Ev == Traces[tr].ev[l + 1]

TripleOK(x, k) == x.g = PPow(G, x.e) /\ x.k = PPow(k, x.e) /\ InQ(x.e)
QuadOK(x, k)   == x.g = PPow(G, x.e1) /\ x.gk = PMul(PPow(G, x.e2), PPow(k, x.e1)) /\ InQ(x.e1) /\ InQ(x.e2)
TtqOK(x, k)    == TripleOK(x.t1, k) /\ TripleOK(x.t2, k) /\ QuadOK(x.q, k)
Exps(x) == {x.t1.e, x.t2.e, x.q.e1, x.q.e2}
C(c, cond) == Clause("P20", c, cond)
Key(e) == Traces[tr].ev[1].k        \* the first event of a trace names the key

\* populate run alone: PopStep until it is no longer enabled
Populated(n) == LET f == Pre!Filled(n, 0, q, t) IN f
SizesOK(e) == e.r.n = Len(q') /\ e.r.max = max'

Step(e) ==
  CASE e.op = "pre_key" -> UNCHANGED <<q, t, max, ok, made, out, vals>> /\ why' = {}
    [] e.op = "pre_init" -> Pre!DoInit(e.n) /\ UNCHANGED vals /\ why' = C("init", Ok(e) /\ SizesOK(e))
    [] e.op = "pre_stop" -> Pre!DoStop /\ UNCHANGED vals /\ why' = C("stop", Ok(e) /\ SizesOK(e))
    [] e.op = "pre_empty" -> Pre!DoEmpty /\ UNCHANGED vals /\ why' = C("empty", Ok(e) /\ SizesOK(e))
    [] e.op = "pre_populate" ->
         /\ IF ok THEN LET f == Populated(max) IN q' = f[2] /\ t' = f[3] /\ made' = made + f[1]
            ELSE UNCHANGED <<q, t, made>>
         /\ UNCHANGED <<max, ok, out, vals>>
         /\ why' = C("populate fills to the size and no further", Ok(e) /\ SizesOK(e))
    [] e.op = "pre_ttq" ->
         /\ Pre!TakeQ
         /\ vals' = IF Ok(e) /\ e.r.v # <<>> THEN vals \cup Exps(e.r.v[1]) ELSE vals
         /\ why' = C("take: available iff not empty", Ok(e) /\ SizesOK(e) /\ (e.r.v = <<>>) = (q = <<>>))
               \cup (IF Ok(e) /\ e.r.v # <<>> THEN
                        C("value is consistent under the key", TtqOK(e.r.v[1], Key(e)))
                        \cup C("value was not handed out before",
                               Exps(e.r.v[1]) \cap vals = {} /\ Cardinality(Exps(e.r.v[1])) = 4)
                        \cup C("copies equal the value", \A i \in DOMAIN e.r.copies : e.r.copies[i] = e.r.v[1])
                     ELSE {})
    [] e.op = "pre_triple" ->
         /\ Pre!TakeT
         /\ vals' = IF Ok(e) /\ e.r.v # <<>> THEN vals \cup {e.r.v[1].e} ELSE vals
         /\ why' = C("take triple: available iff not empty", Ok(e) /\ SizesOK(e) /\ (e.r.v = <<>>) = (t = <<>>))
               \cup (IF Ok(e) /\ e.r.v # <<>> THEN
                        C("triple is consistent under the key", TripleOK(e.r.v[1], Key(e)))
                        \cup C("triple was not handed out before", e.r.v[1].e \notin vals)
                        \cup C("copies equal the triple", \A i \in DOMAIN e.r.copies : e.r.copies[i] = e.r.v[1])
                     ELSE {})
    [] e.op = "pre_threads" ->
         /\ UNCHANGED <<t, made, vals, out>> /\ q' = <<>> /\ max' = e.size /\ ok' = FALSE
         /\ why' = C("concurrent run completes", Ok(e)) \cup
              (IF ~Ok(e) THEN {} ELSE
               LET allQ == e.r.outQ \o e.r.leftQ
                   allT == e.r.outT \o e.r.leftT
                   xs == UNION {Exps(allQ[i]) : i \in DOMAIN allQ} \cup {allT[i].e : i \in DOMAIN allT}
               IN C("size bound under concurrency", e.r.seen <= e.size /\ Len(e.r.leftQ) <= e.size)
                  \cup C("each value at most once under concurrency", Cardinality(xs) = 4 * Len(allQ) + Len(allT))
                  \cup C("values consistent under concurrency",
                         (\A i \in DOMAIN allQ : TtqOK(allQ[i], Key(e))) /\ (\A i \in DOMAIN allT : TripleOK(allT[i], Key(e))))
                  \cup C("stopped means stopped", e.r.before = e.r.after /\ e.r.before = Len(e.r.leftQ))
                  \cup C("empty at the end", e.r.end = 0))
    [] e.op = "pre_stop_midway" ->
         /\ UNCHANGED <<made, vals, out, t>> /\ q' = <<>> /\ max' = e.size /\ ok' = FALSE
         /\ why' = C("stop ends a running populate", Ok(e) /\ e.r.n < e.size /\ e.r.max = e.size /\ e.r.emptied = 0)
    [] e.op = "exit" -> UNCHANGED <<q, t, max, ok, made, out, vals>> /\ why' = C("the process died", FALSE)
    [] OTHER -> UNCHANGED <<q, t, max, ok, made, out, vals>> /\ why' = {"harness:event"}

Init == tr \in 1..Len(Traces) /\ l = 0 /\ why = {} /\ vals = {} /\ Pre!PInit
Next == /\ l < Len(Traces[tr].ev) /\ why = {}
        /\ l' = l + 1 /\ UNCHANGED tr /\ Step(Ev)
Accepted == why = {}
=============================================================================
