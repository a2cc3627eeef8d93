--------------------------- MODULE FreqScaleTrace ---------------------------
EXTENDS FreqScale, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
tvars == <<scale0, bands, explicit, hist, c, l>>
Ops == Cases[c].ops
TraceInit == /\ c \in DOMAIN Cases /\ l = 1 /\ hist = <<>>
             /\ bands = Cases[c].bands /\ scale0 = bands /\ explicit = Cases[c].explicit

Even == Cases[c].even
RangesOf(ev) == Ranges(bands, ev.r, Even, explicit)
Subs(ev) == {SubSeq(bands, rg[1], rg[2]) : rg \in RangesOf(ev)}

\* events: "scale" (slice the scale), "array" (slice an array along the axis),
\* "ints" (the integer slice for a request), "eq" (compare with other bands)
Clause(ev) ==
    IF ev.op = "eq" THEN
        IF ev.res /\ ~SameScale(bands, ev.other) THEN "different scales compare equal"
        ELSE IF ~ev.res /\ ev.same THEN "equal scales compare different" ELSE ""
    ELSE IF ~Legal(bands, ev.r) THEN "harness: illegal request"
    ELSE IF ev.op = "ints" THEN
        IF ev.st # "ok" THEN "looking up a band raised " \o ev.st
        ELSE IF \E rg \in RangesOf(ev) : <<ev.lo, ev.hi>> = rg \/ (rg[2] < rg[1] /\ ev.hi < ev.lo) THEN ""
        ELSE "looking up a band does not give exactly the bands it meets"
    ELSE \* scale / array
        IF ev.st # "ok" THEN IF \E s \in Subs(ev) : s = <<>> THEN "" ELSE ev.op \o " slice raised " \o ev.st
        ELSE IF ~ \E s \in Subs(ev) : ev.edges = Edges(s)
             THEN ev.op \o ": axis does not describe exactly the bands that meet the request"
        ELSE IF ev.op = "array" /\ ~ \E s \in Subs(ev) : ev.edges = Edges(s) /\ ev.cols = Cols(s)
             THEN "array: columns are not those of the bands that meet the request"
        ELSE ""
Apply(ev) == IF ev.op = "array" /\ ev.st = "ok"
             THEN CHOOSE s \in Subs(ev) : ev.edges = Edges(s) ELSE bands

Step == /\ l <= Len(Ops)
        /\ LET ev == Ops[l] k == Clause(Ops[l]) IN
            IF k = "" THEN bands' = Apply(ev) /\ l' = l + 1
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(l) \o " " \o k)
                 /\ l' = Len(Ops) + 2 /\ UNCHANGED bands
        /\ UNCHANGED <<scale0, explicit, hist, c>>
Done == /\ l = Len(Ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ l' = l + 1 /\ UNCHANGED <<scale0, bands, explicit, hist, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
