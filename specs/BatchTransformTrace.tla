------------------------ MODULE BatchTransformTrace ------------------------
(* Recorded transforms of real batches against BatchTransform.               *)
EXTENDS BatchTransform, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ full = K.first
             /\ vec = <<>> /\ bands = <<>> /\ items = <<>> /\ out = <<>> /\ hist = <<>>
Times(v, k) == [j \in DOMAIN v |-> k * v[j]]
\* item k of the batch has k times the coefficients
All(v) == [k \in 1..K.batch |-> Times(v, k)]
Start(n) == [j \in 1..n |-> K.first[j]]
After(ev) == IF ev.op = "load" THEN Start(ev.a[1])
             ELSE IF ev.op = "resample" THEN Resized(vec, ev.a[1], ev.a[2], ev.a[3])
             ELSE IF ev.op = "merge" THEN Merged(bands) ELSE vec
Judge(ev) ==
    IF ev.st # "ok" THEN ev.op \o " of " \o ev.kind \o " failed: " \o ev.st
    ELSE IF ~ev.ok THEN ev.op \o " of " \o ev.kind \o ": wrong shape or values"
    ELSE IF ev.op = "load" THEN IF ev.outs # All(After(ev)) THEN "the coefficients of the signal that was made of them are others" ELSE ""
    ELSE IF ev.op = "resample" THEN IF ev.outs # All(After(ev)) THEN "resampling changes other coefficients" ELSE ""
    ELSE IF ev.op = "split" THEN
         IF ev.outs # [k \in 1..K.batch |-> [b \in DOMAIN ev.a |-> Times(Split(vec, ev.a)[b], k)]] THEN "the bands hold other coefficients" ELSE ""
    ELSE IF ev.op = "merge" THEN IF ev.outs # All(After(ev)) THEN "the bands don't sum up to what was split" ELSE ""
    ELSE IF ev.op = "frames" THEN
         IF ev.outs # [k \in DOMAIN ev.inp |-> Frames(ev.inp[k], ev.a[1], ev.a[2])] THEN "the frames are others" ELSE ""
    ELSE IF ev.op = "apply" THEN
         IF ev.outs # Flat(Chunked(ev.inp, Max(1, ev.a[1]))) THEN ev.kind \o ": what becomes of an item depends on others" ELSE ""
    ELSE IF ev.outs # ev.inp THEN ev.kind \o ": a sample is in another category" ELSE ""
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1 /\ vec' = After(ev)
                           /\ bands' = IF ev.op = "split" THEN Split(vec, ev.a) ELSE IF ev.op \in {"load", "merge"} THEN <<>> ELSE bands
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
                 /\ UNCHANGED <<vec, bands>>
        /\ UNCHANGED <<full, items, out, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
