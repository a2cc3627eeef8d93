-------------------------- MODULE ResamplingTrace --------------------------
(* An event is a piece of n old samples ("in"), a piece of n new samples      *)
(* ("out", with its largest distance, in 1/10000, to the sound at the moments *)
(* these samples stand for), or the end.  The rates of a case are reduced to lowest terms.  *)
EXTENDS Resampling, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ ratio = <<K.new, K.old>> /\ seen = 0 /\ parts = <<>> /\ ended = FALSE /\ hist = <<>>
ToMake == Total(seen)
Judge(ev) ==
    IF ev.st # "ok" THEN "failed"
    ELSE IF ev.op = "in" THEN ""
    ELSE IF ev.op = "out" THEN
        IF ev.rate # K.rate THEN "is said to have another rate"
        ELSE IF ev.channels # K.channels THEN "another number of channels"
        ELSE IF Made + ev.n > ToMake + 1 THEN "more samples than the sound has"
        ELSE IF ev.err > K.tolerance THEN "not the sound of that moment"
        ELSE ""
    ELSE IF Made \notin (ToMake - 1)..(ToMake + 1) THEN "not as long as the sound"
    ELSE ""
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ seen' = IF ev.op = "in" THEN seen + ev.n ELSE seen
                           /\ parts' = IF ev.op = "out" THEN <<<<0, Made + ev.n>>>> ELSE parts
                           /\ ended' = (ev.op = "end")
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED <<seen, parts, ended>>
        /\ UNCHANGED <<ratio, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
