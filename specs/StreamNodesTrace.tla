-------------------------- MODULE StreamNodesTrace --------------------------
EXTENDS StreamNodes, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<svars, c, e>>
Case == Cases[c]
\* Case: kind, fn, len, rows (per source, per row the list of integers it holds),
\* ops: [src, m, st, rows, dims]; m = 0 ends the source.
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
MaxSeq(q) == CHOOSE m \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : q[i] <= m
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Row(r) == Case.rows[r[1]][r[2]]
RECURSIVE CatAll(_)
CatAll(q) == IF q = <<>> THEN <<>> ELSE q[1] \o CatAll(Tail(q))
Sq(x) == x * x
Hfc(r) == SumSeq([j \in 1..(Len(r) - 2) |-> Sq(r[j + 2]) * (j + 2)])
Energy(r) == SumSeq([j \in 1..(Len(r) - 2) |-> Sq(r[j + 2])])
\* samples of the series (period f, sample duration d) that overlap [s, s + u)
Pick(n, s, u) == {i \in 0..(n - 1) : i * Case.f + Case.d > s /\ i * Case.f < s + u}
PoolCol(span, j) ==
    LET S == Pick(Case.len[1], span[1], span[2])
        lo == CHOOSE x \in S : \A y \in S : x <= y
        q == [k \in 1..Cardinality(S) |-> Case.rows[1][lo + k][j]]
    IN IF Case.fn = "sum" THEN SumSeq(q) ELSE IF Case.fn = "max" THEN MaxSeq(q) ELSE -MaxSeq([k \in DOMAIN q |-> -q[k]])
\* the value a row of the output must have, given the input rows it is made of
Value(x) ==
    CASE Case.kind = "merge" -> CatAll([i \in DOMAIN x |-> Row(x[i])])
      [] Case.kind = "pooled" -> Row(x[1]) \o [j \in DOMAIN Case.rows[1][1] |-> PoolCol(Row(x[1]), j)]
      [] Case.fn = "flux" -> <<SumSeq([j \in DOMAIN Row(x[1]) |-> Sq(Row(x[2])[j] - Row(x[1])[j])])>>
      [] Case.fn = "unitflux" -> <<SumSeq([j \in DOMAIN Row(x[1]) |-> Sq(Sgn(Row(x[2])[j]) - Sgn(Row(x[1])[j]))])>>
      [] Case.fn = "sum" -> <<SumSeq(Row(x[1]))>>
      [] Case.fn = "max" -> <<MaxSeq(Row(x[1]))>>
      [] Case.fn = "slice" -> SubSeq(Row(x[1]), Case.a + 1, Case.b)
      [] Case.fn = "binarize" -> [j \in DOMAIN Row(x[1]) |-> IF Row(x[1])[j] > 2 THEN 1 ELSE 0]
      \* rows of three frames of w bins: expected minus actual magnitude
      [] Case.fn = "complex" -> LET w == Len(Row(x[1])) \div 3 IN
            <<SumSeq([j \in 1..w |-> Row(x[1])[w + j] - Row(x[1])[2 * w + j]])>>
      \* real valued: what the node gives for that row alone, by number
      [] Case.fn = "byrow" -> Case.ref[x[1][2]]
Agrees(o, x) ==
    IF Case.fn = "mot"     \* o = <<num, den>>: (hfc/previous hfc) * (hfc/energy)
    THEN LET h0 == Hfc(Row(x[1])) h1 == Hfc(Row(x[2])) en == Energy(Row(x[2])) IN
         IF h1 = 0 THEN o = IF h0 = 0 THEN <<1, 1>> ELSE <<0, 1>>
         ELSE IF h0 = 0 THEN o[1] = -1        \* huge
         ELSE o[1] * h0 * en = h1 * h1 * o[2]
    ELSE IF Case.fn = "centroid"    \* o = <<num, den>>: the mean place, weighted by magnitude
    THEN LET tot == SumSeq(Row(x[1])) IN
         IF tot = 0 THEN o = <<0, 1>>
         ELSE o[1] >= 0 /\ o[1] * tot = o[2] * SumSeq([j \in DOMAIN Row(x[1]) |-> Row(x[1])[j] * j])
    ELSE o = Value(x)
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ kind = Cases[c].kind /\ len = Cases[c].len
             /\ fed = [i \in DOMAIN len |-> 0] /\ ended = [i \in DOMAIN len |-> FALSE]
             /\ cache = <<>> /\ emitted = <<>> /\ sched = <<>>
Clause(ev) ==
    LET o == emitted \o ev.rows
        whole == Whole(kind, len)
        over == Len(o) > Len(whole)
        fin == ev.m = 0 /\ \A i \in DOMAIN ended : ended[i] \/ i = ev.src
    IN
    IF ended[ev.src] \/ fed[ev.src] + ev.m > len[ev.src] \/ (ev.m = 0 /\ fed[ev.src] # len[ev.src]) THEN "harness: schedule"
    ELSE IF ev.st # "ok" THEN "the node raised " \o ev.st
    ELSE IF \E k \in (Len(emitted) + 1)..Min2(Len(o), Len(whole)) : ~Agrees(o[k], whole[k])
         THEN "an emitted row is not what its input rows give"
    ELSE IF over THEN "more rows than the inputs give"
    ELSE IF ~ev.dims THEN "the time axis of the emitted rows is not the one of the input"
    ELSE IF fin /\ Len(o) < Len(whole) THEN "rows are missing after the end of all inputs"
    ELSE ""
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Clause(ev) IN
            IF m = "" THEN /\ emitted' = emitted \o ev.rows /\ e' = e + 1
                           /\ fed' = [fed EXCEPT ![ev.src] = @ + ev.m]
                           /\ ended' = [ended EXCEPT ![ev.src] = ev.m = 0]
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<emitted, fed, ended>>
        /\ UNCHANGED <<kind, len, cache, sched, c>>
Done == /\ e = Len(Case.ops) + 1
        /\ PrintT(IF \A i \in DOMAIN ended : ended[i] THEN "OK " \o ToString(c) ELSE "BAD " \o ToString(c) \o " 0 harness: not ended")
        /\ e' = e + 1 /\ UNCHANGED <<svars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
