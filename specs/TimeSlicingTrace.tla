-------------------------- MODULE TimeSlicingTrace --------------------------
(* Judges recorded slicing sessions: every Get/Set event carries its request *)
(* and the complete observed result.                                          *)
EXTENDS TimeSlicing, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
tvars == <<f, d, arr, orig, hist, c, l>>
Ops == Cases[c].ops

TraceInit == /\ c \in DOMAIN Cases
             /\ l = 1
             /\ f = Cases[c].f /\ d = Cases[c].d
             /\ arr = Cases[c].arr /\ orig = arr /\ hist = <<>>

Clause(ev) ==
    IF ev.st # "ok" THEN "time slice raised " \o ev.st
    ELSE IF ev.op = "get" THEN
        IF ev.res \notin Allowed(arr, f, d, ev.r)
          THEN "slice does not return exactly the overlapping samples"
        ELSE IF ev.f # f \/ ev.d # d
          THEN "sliced time axis has another period or sample duration"
        ELSE ""
    ELSE
        IF ev.res \notin AfterSet(arr, f, d, ev.r, ev.v)
          THEN "assignment does not change exactly the overlapping samples"
        ELSE ""

Step == /\ l <= Len(Ops)
        /\ LET ev == Ops[l] k == Clause(Ops[l]) IN
            IF k = "" THEN /\ arr' = ev.res
                           /\ l' = l + 1
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(l) \o " " \o k)
                 /\ l' = Len(Ops) + 2
                 /\ UNCHANGED arr
        /\ UNCHANGED <<f, d, orig, hist, c>>
Done == /\ l = Len(Ops) + 1
        /\ PrintT("OK " \o ToString(c))
        /\ l' = l + 1
        /\ UNCHANGED <<f, d, arr, orig, hist, c>>
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
