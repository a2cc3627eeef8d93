---------------------------- MODULE ScalesTrace -----------------------------
(* Borders of bands, bins and tones are given by their rank among each other. *)
(* made: a scale, measured: m is where centres are on the scale's own measure *)
(* (0 to 1000), bw the width relative to what it should be (1000).            *)
EXTENDS Scales, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ scale = <<>> /\ x = <<>> /\ out = <<>> /\ hist = <<>>
Near(v, w, d) == v - w \in -d..d
JudgeMade(ev) ==
    IF ev.n # Len(ev.es) \/ ev.count # ev.n THEN "another number of bands"
    ELSE IF ev.same # "" THEN ev.same
    ELSE IF ~Near(ev.span[1], 0, 1) \/ ~Near(ev.span[2], 1000, 1) THEN "the scale doesn't span what it should"
    ELSE IF ev.kind = "linear" THEN
        LET t == Linear(0, 1000, ev.n) IN
        IF \E i \in 1..ev.n : ~Near(ev.es[i], t[i][1], 1) \/ ~Near(ev.ee[i], t[i][2], 1) THEN "the bands aren't of the same width, one after the other" ELSE ""
    ELSE IF \E i \in 1..ev.n : ~Near(ev.m[i] * (ev.n - 1), 1000 * (i - 1), ev.n) THEN "the centres aren't evenly spread"
    ELSE IF \E i \in 1..ev.n : ~Near(ev.bw[i], 1000, 1) THEN "a band of another width"
    ELSE ""
JudgeMeet(ev) ==
    LET m == Meet(ev.a, ev.b) IN
    IF ev.res # m THEN "bands share something else"
    ELSE IF m # <<>> /\ ~Near(ev.ratio * Width(ev.a), 1000 * Width(m), Width(ev.a)) THEN "bands share another part"
    ELSE IF ev.eq # (ev.a = ev.b) \/ (ev.a = ev.b /\ ~ev.hash) THEN "bands are equal to others"
    ELSE ""
JudgeBand(ev) == \* a: centre and half of the width, or start and width
    LET b == IF ev.kind = "center" THEN <<ev.a[1] - ev.a[2], ev.a[1] + ev.a[2]>> ELSE <<ev.a[1], ev.a[1] + ev.a[2]>> IN
    IF b[1] >= b[2] THEN IF ev.res # <<>> THEN "there's a band of nothing" ELSE ""
    ELSE IF ev.res # b THEN "another band"
    ELSE IF ev.eq # TRUE \/ ev.ratio # b[2] - b[1] \/ ev.n # b[1] + b[2] THEN "another centre or width"
    ELSE ""
JudgeApply(ev) ==
    IF ev.same # "" THEN ev.same
    ELSE IF Len(ev.outs) # Len(ev.rows) THEN "another number of spectra"
    ELSE IF \E r \in DOMAIN ev.rows : ev.outs[r] # Apply(K.bins, ev.bands, ev.win, ev.rows[r]) THEN "not the sum of the bins that meet the bands"
    ELSE ""
\* tones: ranks of the frequencies of consecutive semitones; the notes within the band count, others next to it may
Tones(ev) == {k \in 2..(Len(ev.tones) - 1) : ev.band[1] <= ev.tones[k] /\ ev.tones[k] <= ev.band[2]}
Maybe(ev) == {k \in 2..(Len(ev.tones) - 1) : k \notin Tones(ev) /\ ev.tones[k - 1] < ev.band[2] /\ ev.tones[k + 1] > ev.band[1]}
Tone(ev, row, k) == Total(K.bins, <<ev.tones[k - 1], ev.tones[k + 1]>>, ev.win, row)
Chroma(ev, row, ks, off) == [t \in 1..12 |-> LET mine == {k \in ks : (k + off) % 12 = t - 1} IN
                                 Sum([i \in DOMAIN ev.tones |-> IF i \in mine THEN Tone(ev, row, i) ELSE 0])]
JudgeChroma(ev) ==
    IF ev.same # "" THEN ev.same
    ELSE IF Len(ev.outs) # Len(ev.rows) THEN "another number of spectra"
    ELSE IF ~\E off \in 0..11, more \in SUBSET Maybe(ev) : \A r \in DOMAIN ev.rows : ev.outs[r] = Chroma(ev, ev.rows[r], Tones(ev) \cup more, off)
    THEN "not the sum of the bins near all octaves of a tone"
    ELSE ""
Judge(ev) ==
    IF ev.st # "ok" THEN "failed"
    ELSE CASE ev.op = "made" -> JudgeMade(ev)
           [] ev.op = "meet" -> JudgeMeet(ev)
           [] ev.op = "band" -> JudgeBand(ev)
           [] ev.op = "overlap" -> IF ev.eq # Overlapping(ev.bands, ev.a[1], ev.a[2]) THEN "whether bands overlap enough" ELSE ""
           [] ev.op = "apply" -> JudgeApply(ev)
           [] ev.op = "chroma" -> JudgeChroma(ev)
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
        /\ UNCHANGED <<vars, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
