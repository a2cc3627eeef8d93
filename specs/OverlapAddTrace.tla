-------------------------- MODULE OverlapAddTrace --------------------------
EXTENDS OverlapAdd, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ w = Cases[c].w /\ h = Cases[c].h /\ frames = <<>> /\ out = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* rebuilt from the transformed windows of a signal: equal wherever every window that should cover a
\* position does, i.e. not in the first and last partial overlap
Fully(i) == i >= w - h /\ i < Case.k * h
Judge(ev) ==
    IF ev.st # "ok" THEN ev.how \o " raised " \o ev.st
    ELSE IF ev.how = "generate" THEN
        IF ev.sr # Case.sr THEN "a generated sound has another sample rate"
        \* ms milliseconds; the rate is per second
        ELSE IF ev.n * 1000 > Case.ms * Case.sr \/ (ev.n + 1) * 1000 <= Case.ms * Case.sr
             THEN "a generated sound is longer or shorter than asked" ELSE ""
    ELSE IF ~ev.audio THEN ev.how \o " did not give audio samples"
    ELSE IF ev.sr # Case.sr THEN ev.how \o " changed the sample rate"
    ELSE IF ev.n # Length(Case.k, w, h) THEN ev.how \o " gave a sound of the wrong length"
    ELSE IF ev.how = "add" THEN (IF ev.out = out THEN "" ELSE "windows were not added up at their own positions")
    ELSE LET wrong == {i \in 1..Len(ev.out) : LET p == ev.from + i - 1 IN
                        Fully(p) /\ Abs(ev.out[i] - Case.x[i] * (IF Case.each THEN Cardinality(Covering(Case.k, w, h, p)) ELSE 1)) > Case.tol}
         IN IF wrong = {} THEN "" ELSE ev.how \o " did not give the signal back"
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] IN
            IF ev.op = "frame"
            THEN /\ frames' = Append(frames, ev.f) /\ out' = Place(out, ev.f, Len(frames), h) /\ e' = e + 1
            ELSE LET m == Judge(ev) IN
                 IF m = "" THEN e' = e + 1 /\ UNCHANGED <<frames, out>>
                 ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                      /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<frames, out>>
        /\ UNCHANGED <<w, h, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
