------------------------ MODULE CompressedReadTrace ------------------------
EXTENDS CompressedRead, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ n = Cases[c].n /\ iters = <<>> /\ hist = <<>>
Want(ev) ==
    CASE ev.op = "span" -> Span(n, ev.s, Plus(ev.s, ev.d, Case.p))
      [] ev.op = "open" -> Remaining(n, ev.s)
      [] ev.op = "whole" -> <<0, n>>
      [] ev.op = "encoded" -> <<0, n>>
      [] ev.op = "chunk" -> ChunkOf(n, Case.chunk, iters[ev.j])
\* what was read is a run [first, count] of the samples; first is meaningless when there are none
Same(g, w) == g[2] = w[2] /\ (g[2] = 0 \/ g[1] = w[1] % Case.mod)
Clause(ev) ==
    IF ev.op = "iter" THEN (IF ev.st = "ok" THEN "" ELSE "iterating raised " \o ev.st)
    ELSE IF ev.op = "stop" THEN (IF iters[ev.j] * Case.chunk >= n THEN "" ELSE "the chunks ended before the sound did")
    ELSE LET w == Want(ev) IN
    IF ev.st # "ok" THEN ev.op \o " raised " \o ev.st
    ELSE IF ev.sr # Case.sr THEN ev.op \o " has another sample rate than the sound"
    ELSE IF ev.ch # Case.ch THEN ev.op \o " has another number of channels than the sound"
    ELSE IF Len(ev.runs) > 1 THEN ev.op \o " has samples out of order, or of other places"
    ELSE IF ~Same(ev.got, w) THEN
        (IF ev.got[2] # w[2] THEN ev.op \o " gave too many or too few samples" ELSE ev.op \o " starts at another sample than asked")
    ELSE ""
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Clause(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ iters' = (IF ev.op = "iter" THEN Append(iters, 0)
                                        ELSE IF ev.op = "chunk" THEN [iters EXCEPT ![ev.j] = @ + 1] ELSE iters)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED iters
        /\ UNCHANGED <<n, hist, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
