------------------------- MODULE SlidingStreamTrace -------------------------
EXTENDS SlidingStream, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
\* one event per delivered chunk and one for the end of the stream: [m, st, wins, axes]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ l = Cases[c].l /\ w = Cases[c].w /\ s = Cases[c].s
             /\ pos = 0 /\ cache = <<>> /\ skip = 0 /\ out = <<>> /\ hist = <<>> /\ done = FALSE
AxesOK(a) == \A i \in DOMAIN a :
    /\ a[i][1] = [f |-> Case.f * s, d |-> (w - 1) * Case.f + Case.d]
    /\ a[i][2] = [f |-> Case.f, d |-> Case.d]
Clause(ev) ==
    LET o == out \o ev.wins
        whole == Whole(l, w, s, Case.padwith) IN
    IF ev.st # "ok" THEN "a chunk raised " \o ev.st
    ELSE IF ~ AxesOK(ev.axes) THEN "the time axis of an emitted block does not describe its windows"
    ELSE IF ~ ev.others THEN "another axis of an emitted block lost its dimension"
    ELSE IF \E k \in 1..Min2(Len(o), Len(whole)) : o[k] # whole[k] THEN "a window does not hold the samples from its start"
    ELSE IF Len(o) > Len(whole) THEN "more windows than the whole signal gives"
    ELSE IF ev.m < 0 /\ pos # l THEN "harness: stream ended early"
    ELSE IF ev.m < 0 /\ Len(o) < Len(whole) THEN "windows are missing at the end of the stream"
    ELSE IF ev.m < 0 /\ Case.ref # o THEN "not the windows that feeding the whole signal at once gives"
    ELSE ""
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Clause(ev) IN
            IF m = "" THEN /\ out' = out \o ev.wins /\ e' = e + 1
                           /\ pos' = IF ev.m < 0 THEN pos ELSE pos + ev.m
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<out, pos>>
        /\ UNCHANGED <<l, w, s, cache, skip, hist, done, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
