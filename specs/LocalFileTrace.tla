--------------------------- MODULE LocalFileTrace ---------------------------
(* Each event is a step of a client or of the remote file, with what the      *)
(* client was told (-1: an error, a version, -2: something else), what is in  *)
(* the place of the copy (-9: not looked at) and how many downloads began.    *)
EXTENDS LocalFile, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ remote = 1 /\ local = 0
             /\ got = [x \in 1..3 |-> Not] /\ result = <<>> /\ loads = 0 /\ hist = <<>>
Same(ev) == ev.local = -9 \/ ev.local = local
Judge(ev) ==
    IF ev.local = -2 THEN "what is in the place of the copy is not complete"
    ELSE IF ev.res = -2 THEN "was given something else than the remote file"
    ELSE IF ev.op = "ask" THEN
        IF local # 0 THEN
            IF ev.loads # loads THEN "downloaded again although there is a copy"
            ELSE IF ev.res = -1 THEN "was not given the copy"
            ELSE IF ev.res # local \/ ~Same(ev) THEN "the copy was altered"
            ELSE ""
        ELSE IF ev.loads # loads + 1 THEN IF ev.res = -1 THEN "an attempt failed without trying" ELSE "was not downloaded"
        ELSE IF ~Same(ev) THEN "there is a copy before the download is complete"
        ELSE ""
    ELSE IF ev.loads # loads THEN "downloaded again without being asked"
    ELSE IF ev.op = "piece" THEN IF ~Same(ev) THEN "there is a copy before the download is complete" ELSE ""
    ELSE IF ev.op = "finish" THEN
        IF ev.res = -1 THEN "a complete download failed"
        ELSE IF ev.res # got[ev.cl].v /\ ev.res # local THEN "was given something else than the remote file"
        ELSE IF ev.local # -9 /\ ev.local # ev.res THEN "there is no complete copy"
        ELSE ""
    ELSE IF ev.op = "fail" THEN
        IF ev.res # -1 THEN "the failure of a download was not reported"
        ELSE IF ~Same(ev) THEN "a failed download left something in the place of the copy"
        ELSE ""
    ELSE IF ev.op = "die" THEN IF ~Same(ev) THEN "a download that died left something in the place of the copy" ELSE ""
    ELSE IF ~Same(ev) THEN "the copy was altered" ELSE ""
Do(ev) ==
    /\ remote' = IF ev.op = "change" THEN remote + 1 ELSE remote
    /\ loads' = ev.loads
    /\ local' = IF ev.op = "finish" THEN ev.res ELSE local
    /\ got' = IF ev.cl = 0 THEN got
              ELSE [got EXCEPT ![ev.cl] = IF ev.op = "ask" THEN IF local # 0 THEN Not ELSE [v |-> remote, n |-> 0]
                                          ELSE IF ev.op = "piece" THEN [@ EXCEPT !.n = @ + 1] ELSE Not]
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ Do(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED <<remote, local, got, loads>>
        /\ UNCHANGED <<result, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
