-------------------------- MODULE ArrayStoreTrace --------------------------
EXTENDS ArrayStore, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ head = "" /\ width = 0 /\ packed = Cases[c].packed
             /\ disk = Empty /\ sent = <<>> /\ hist = <<>>
Judge(ev) ==
    IF ev.op = "write" THEN (IF ev.st = "ok" THEN "" ELSE "storing raised " \o ev.st)
    ELSE IF ev.op = "time" THEN
        IF ev.st # "ok" THEN "storing a span of time raised " \o ev.st
        ELSE IF ev.a # ev.b THEN "a stored span of time changed" ELSE ""
    ELSE IF ev.st # "ok" THEN "reading raised " \o ev.st
    ELSE IF ev.dtype # (IF packed THEN "uint8" ELSE Case.dtype) THEN "the type of the values changed"
    ELSE IF ev.cls # Case.cls THEN "the kind of array changed"
    ELSE IF Len(ev.rows) # Len(disk.rows) THEN "the number of rows changed"
    ELSE IF ev.shape # Case.shape THEN "the shape of the rows changed"
    ELSE IF ev.rows # disk.rows THEN "the values changed"
    ELSE IF ev.dims # Case.dims THEN "the axes changed"
    ELSE IF ev.sizes # Case.sizes THEN "an axis does not know its size"
    ELSE ""
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ IF ev.op = "write" THEN Write(ev.rows) ELSE UNCHANGED <<disk, sent, hist>>
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<disk, sent, hist>>
        /\ UNCHANGED <<head, width, packed, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
