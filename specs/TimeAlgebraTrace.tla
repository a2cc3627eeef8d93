-------------------------- MODULE TimeAlgebraTrace --------------------------
EXTENDS TimeAlgebra, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
tvars == <<cur, hist, c, l>>
Ops == Cases[c].ops
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ hist = <<>> /\ cur = Cases[c].start

AudioRates == {96000, 48000, 44100, 22050, 16000, 11025}
Abs(x) == IF x < 0 THEN -x ELSE x

\* the sample rates' events carry r = [f, d] in units of which a second has `sec`
Clause(e) ==
    IF e.op \in {"add", "and", "query", "at"} /\ e.a # cur THEN "harness: state"
    ELSE IF e.st # "ok" THEN e.op \o " raised " \o e.st
    ELSE IF e.op = "add" THEN
        IF e.res = Shift(cur, e.t) THEN "" ELSE "shifting does not move the start and keep the duration"
    ELSE IF e.op = "and" THEN
        IF IsAnd(e.res, cur, e.b) THEN "" ELSE "the intersection is not the interval both spans share"
    ELSE IF e.op = "query" THEN
        IF e.cmp # Cmp(cur.s, e.b.s) THEN "ordering does not follow the start"
        ELSE IF e.eq # Same(cur, e.b) \/ e.ne = e.eq THEN "equality of spans"
        ELSE IF Same(cur, e.b) /\ ~e.hash THEN "equal spans hash differently"
        ELSE IF e.has # HasSpan(cur, e.b) THEN "containment of a span"
        ELSE IF e.end # EndOf(cur) THEN "end of a span" ELSE ""
    ELSE IF e.op = "at" THEN
        IF e.cmp # Cmp(cur.s, e.t) THEN "ordering against a point in time"
        ELSE IF e.has # HasPoint(cur, e.t) THEN "containment of a point in time" ELSE ""
    ELSE IF e.op = "slices" THEN
        IF e.res = Slices(e.ts) THEN "" ELSE "timestamps are not cut into the consecutive spans between them"
    ELSE IF e.op = "mul" THEN
        IF e.res = Windowed(e.r, e.h, e.w) THEN "" ELSE "scaled sample rate"
    ELSE IF e.op = "props" THEN
        IF e.overlap # e.r.d - e.r.f THEN "overlap of a sample rate"
        ELSE IF e.unpacked # e.r THEN "unpacked sample rate"
        ELSE IF e.sps # e.sec \div e.r.f \/ e.nyq # e.sps \div 2 THEN "samples per second"
        ELSE IF e.ratio # (1000 * (e.r.d - e.r.f)) \div e.r.d THEN "overlap ratio"
        ELSE IF e.eq # (e.r = e.q) THEN "equality of sample rates" ELSE ""
    ELSE IF e.op = "samples" THEN
        \* e.q was derived from e.r for steps of h and windows of w samples
        IF e.q # Windowed(e.r, e.h, e.w) THEN "harness: rate"
        ELSE IF e.got = <<Step(e.q, e.r), WinSamples(e.q, e.r)>> THEN "" ELSE "step and window in samples"
    ELSE IF e.op = "resample" THEN
        IF e.res.f * e.den = e.r.f * e.num /\ e.res.d * e.den = e.r.d * e.num
        THEN "" ELSE "resampled rate"
    ELSE IF e.op = "dim" THEN
        IF e.span # [s |-> 0, d |-> Span(e.r, e.n)] \/ e.end # Span(e.r, e.n) THEN "span of a time dimension"
        ELSE IF e.mod # Windowed(e.r, e.h, e.w) THEN "time dimension of windows"
        ELSE IF e.rate # e.r THEN "sample rate of a time dimension" ELSE ""
    ELSE IF e.op = "audio" THEN
        IF e.n \notin AudioRates
        THEN IF e.found THEN "unknown audio sample rate accepted" ELSE ""
        ELSE IF ~e.found \/ e.sps # e.n \/ e.nyq # e.n \div 2 THEN "audio sample rate looked up"
        ELSE IF e.half # <<e.hop, e.win>> \/ e.hop * 2 # e.win THEN "half lapped windows of an audio sample rate"
        ELSE IF e.scheme # <<e.h, e.w>> THEN "windowing scheme of an audio sample rate" ELSE ""
    ELSE IF e.op = "nearest" THEN
        IF e.res \in AudioRates /\ \A a \in AudioRates : Abs(a - e.n) >= Abs(e.res - e.n)
        THEN "" ELSE "nearest audio sample rate"
    ELSE "harness: unknown event"
Apply(e) == IF e.op \in {"add", "and"} THEN e.res ELSE cur

StepT == /\ l <= Len(Ops)
         /\ LET e == Ops[l] k == Clause(Ops[l]) IN
             IF k = "" THEN cur' = Apply(e) /\ l' = l + 1
             ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(l) \o " " \o k)
                  /\ l' = Len(Ops) + 2 /\ UNCHANGED cur
         /\ UNCHANGED <<hist, c>>
Done == /\ l = Len(Ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ l' = l + 1 /\ UNCHANGED <<cur, hist, c>>
TraceSpec == TraceInit /\ [][StepT \/ Done]_tvars
=============================================================================
