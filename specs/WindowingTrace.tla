--------------------------- MODULE WindowingTrace ---------------------------
EXTENDS Windowing, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, ph
tvars == <<vars, c, ph>>
TraceInit == /\ c \in DOMAIN Cases /\ ph = 0
             /\ l = 0 /\ w = 1 /\ s = 1 /\ pad = FALSE /\ k = 0 /\ out = <<>> /\ rest = <<>> /\ done = TRUE

\* the size of windows and steps given as times of an axis with period f
InSamples(e, v) == IF e.timed THEN CeilDiv(v, e.f) ELSE v
Clause(e) ==
    IF e.st # "ok" THEN "windowing raised " \o e.st
    ELSE IF e.op = "nd" THEN
        IF e.res = WinsND(e.shape, e.ws, e.ss) THEN "" ELSE "windows along several axes are not the samples at their positions"
    ELSE LET W == InSamples(e, e.w) S == InSamples(e, e.s) IN
        IF ~e.pad /\ Len(e.res) # NWin(e.l, W, S) THEN "not every full window, or more than the full windows"
        ELSE IF e.res # Wins(e.l, W, S, Len(e.res)) THEN "a window does not hold the samples from its start"
        ELSE IF ~e.pad /\ e.haveleft /\ e.left # Left(e.l, W, S) THEN "leftovers are not the samples from the first start that was not produced"
        ELSE IF e.pad /\ ~PadCount(e.l, W, S, Len(e.res)) THEN "padded windows do not reach every sample, or are only padding"
        ELSE IF e.pad /\ e.left # <<>> THEN "leftovers in spite of padding"
        ELSE IF e.units /\ Len(e.res) > 0 /\ e.axis # [f |-> e.f * S, d |-> (W - 1) * e.f + e.d]
             THEN "the time axis of the windows has the wrong period or duration"
        ELSE IF e.units /\ Len(e.res) > 0 /\ e.inner # [f |-> e.f, d |-> e.d]
             THEN "the time axis inside the windows is not that of the samples"
        ELSE IF e.units /\ ~e.others THEN "another axis lost its dimension"
        ELSE ""
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED <<vars, c>>
         /\ LET m == Clause(Cases[c]) IN
              PrintT(IF m = "" THEN "OK " \o ToString(c) ELSE "BAD " \o ToString(c) \o " 1 " \o m)
TraceSpec == TraceInit /\ [][Judge]_tvars
=============================================================================
