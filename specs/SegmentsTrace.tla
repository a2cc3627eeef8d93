--------------------------- MODULE SegmentsTrace ---------------------------
EXTENDS Segments, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
ToSet(q) == {q[i] : i \in DOMAIN q}
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ n = Cases[c].n /\ f = Cases[c].f /\ onsets = ToSet(Cases[c].onsets)
             /\ pos = 0 /\ left = 0 /\ out = <<>> /\ hist = <<>> /\ done = FALSE
Clause(ev) ==
    LET o == Real(out \o ev.segs) w == Tiling(n, f, onsets)
        bad == {k \in 1..Len(o) : k > Len(w) \/ (k <= Len(w) /\ o[k] # w[k])} IN
    IF done \/ pos + ev.m > n THEN "harness: chunks"
    ELSE IF ev.st # "ok" THEN "the segmentation raised " \o ev.st
    ELSE IF bad # {} THEN
         LET k == MinOf(bad) IN
         IF k > Len(w) THEN "segments beyond the end of the input"
         ELSE IF o[k][1] # w[k][1] THEN "a segment does not start where the one before ended"
         ELSE "a segment does not end at the next onset or at the end of the input"
    ELSE IF ev.m = 0 /\ pos # n THEN "harness: early end"
    ELSE IF ev.m = 0 /\ Len(o) # Len(w) THEN "the segments do not reach the end of the input"
    ELSE IF ev.m = 0 /\ Case.stored # <<>> /\ Real(Case.stored) # w THEN "the stored segments are not the segments produced"
    ELSE ""
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Clause(ev) IN
            IF m = "" THEN /\ out' = out \o ev.segs /\ e' = e + 1
                           /\ pos' = pos + ev.m /\ done' = (ev.m = 0)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<out, pos, done>>
        /\ UNCHANGED <<n, f, onsets, left, hist, c>>
Done == /\ e = Len(Case.ops) + 1
        /\ PrintT(IF done THEN "OK " \o ToString(c) ELSE "BAD " \o ToString(c) \o " 0 harness: not ended")
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
