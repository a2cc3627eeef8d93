-------------------------- MODULE AudioGraphTrace --------------------------
(* Moments are counted in samples of the rate that the graph works at.  A    *)
(* feature of single samples is looked at in blocks of 64.  An answer has the *)
(* feature's axis (in samples, and what is left over), its loud rows, the     *)
(* rows that are not quite silent, and the strongest band of loud rows.       *)
EXTENDS AudioGraph, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e,
          known \* <<sound, feature>> -> what has been read before
tvars == <<vars, c, e, known>>
K == Cases[c]
Rate == K.rate
HalfLapped == <<(1024 * Rate) \div 44100, (2048 * Rate) \div 44100>>
PerSample == {"resampled", "ogg"}
\* the shape that the graph's definition gives a feature
ShapeOf(f) == IF f \in PerSample THEN <<1, 1>>
              ELSE IF K.kind = "audio" \/ K.kind = "onsets" THEN HalfLapped
              ELSE K.scheme
Columns(win) == [fft |-> (win + K.pad) \div 2 + 1, dct |-> win, windowed |-> win, bark |-> 100, centroid |-> 1, chroma |-> 12, bfcc |-> 13]
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ docs = <<>> /\ last = <<>> /\ hist = <<>> /\ known = <<>>
Bursts(snd) == K.sounds[snd].bursts
\* in samples of the original (ogg keeps the original rate)
Conv(f, x) == IF f = "ogg" THEN (x * K.ratio[1]) \div K.ratio[2] ELSE x
NOf(f, snd) == IF f = "ogg" THEN K.sounds[snd].original ELSE K.sounds[snd].n
In(runs, r) == \E k \in DOMAIN runs : runs[k][1] <= r /\ r <= runs[k][2]
Around(b, hop, win) == {r \in 0..(((b + win) \div hop) + 1) : r * hop <= b /\ b < r * hop + win}
Slack(f) == IF f = "ogg" THEN 4500 ELSE IF K.source = Rate THEN 0 ELSE 100
\* rows in the middle of which a burst has its middle
Certain(f, b, hop, win) == LET m == Conv(f, b[1] + b[2] \div 2)
                           IN {r \in Around(m, hop, win) : (win = hop \/ (r * hop + win \div 4 <= m /\ m < r * hop + (3 * win) \div 4))}
\* rows that overlap a burst
Meets(f, b, hop, win, r) == /\ r * hop < Conv(f, b[1] + b[2]) + Slack(f)
                            /\ r * hop + win > Conv(f, b[1]) - Slack(f)
Judge(ev) ==
    IF ev.st # "ok" THEN "failed"
    ELSE IF ev.op = "process" THEN ""
    ELSE IF ev.op = "names" THEN
        IF {ev.ids[k] : k \in DOMAIN ev.ids} # DOMAIN docs THEN "lists other documents than those that were made"
        ELSE IF Len(ev.ids) # Cardinality(DOMAIN docs) THEN "lists a document twice" ELSE ""
    ELSE
    LET snd == docs[ev.id]
        f == ev.feature
        key == <<snd, f>>
        B == Bursts(snd)
    IN IF ev.op = "slices" THEN
        LET S == ev.slices n == NOf("", snd) hop == HalfLapped[1] IN
        IF Len(S) = 0 \/ S[1][1] # 0 THEN "does not begin at the beginning"
        ELSE IF \E k \in 1..(Len(S) - 1) : S[k][2] # S[k + 1][1] THEN "has a gap or an overlap"
        ELSE IF \E k \in DOMAIN S : S[k][2] < S[k][1] THEN "a slice of negative duration"
        ELSE IF S[Len(S)][2] \notin (n - 20 * hop)..(n + 4 * hop) THEN "does not end with the sound"
        ELSE IF \E k \in DOMAIN B : ~\E j \in 2..Len(S) : S[j][1] \in (B[k][1] - 3 * hop)..(B[k][1] + 3 * hop) THEN "misses an onset"
        ELSE IF \E j \in 2..(Len(S) - 1) : ~\E k \in DOMAIN B : S[j][1] \in (B[k][1] - 8 * hop)..(B[k][1] + B[k][2] + 12 * hop) THEN "finds an onset in silence"
        ELSE IF K.source = Rate /\ key \in DOMAIN known /\ known[key] # S THEN "differs with the size of the chunks"
        ELSE ""
    ELSE
    LET sh == ShapeOf(f)
        n == NOf(f, snd)
        off == IF f = "ogg" \/ K.source = Rate THEN 0 ELSE Rate \div K.source + 1
        many == {Rows(m, sh[1], sh[2]) : m \in (n - off)..(n + off)}
        hop == IF f \in PerSample THEN 64 ELSE sh[1]
        win == IF f \in PerSample THEN 64 ELSE sh[2]
    IN IF ev.hop # sh[1] \/ ev.hopr # 0 THEN "rows follow each other at another rate"
       ELSE IF ev.dur # sh[2] \/ ev.durr # 0 THEN "rows last another time"
       ELSE IF ev.rows \notin many THEN "another number of rows"
       ELSE IF ev.size # ev.rows THEN "the axis has another number of rows than the data"
       ELSE IF ev.bands # ev.cols THEN "the frequency axis has another number of bands than the data"
       ELSE IF f \in DOMAIN Columns(sh[2]) /\ ev.cols # Columns(sh[2])[f] THEN "another number of columns"
       ELSE IF ev.off > 50 THEN "does not follow from the feature it is computed from"
       ELSE IF \E k \in DOMAIN B : \E r \in Certain(f, B[k], hop, win) : ~In(ev.loud, r) THEN "silent where there is a sound"
       ELSE IF \E k \in DOMAIN ev.heard : \E r \in ev.heard[k][1]..ev.heard[k][2] :
                 ~\E j \in DOMAIN B : Meets(f, B[j], hop, win, r) THEN "not silent where there is silence"
       ELSE IF \E k \in DOMAIN ev.peaks : LET p == ev.peaks[k] IN
                 /\ \E j \in DOMAIN B : p[1] \in Certain(f, B[j], hop, win)
                 /\ ~\E j \in DOMAIN B : /\ Meets(f, B[j], hop, win, p[1])
                                         /\ p[2] - (3 * Rate) \div win <= B[j][3] /\ B[j][3] <= p[3] + (3 * Rate) \div win
            THEN "shows another frequency"
       ELSE IF key \in DOMAIN known /\ (Len(known[key]) # Len(ev.prof)
                 \/ \E k \in DOMAIN ev.prof : k \in DOMAIN known[key] /\ known[key][k] - ev.prof[k] \notin -3..3) THEN "differs from what was read before"
       ELSE ""
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ docs' = IF ev.op = "process" THEN [j \in DOMAIN docs \cup {ev.id} |-> IF j = ev.id THEN ev.sound ELSE docs[j]] ELSE docs
                           /\ known' = IF ev.op \notin {"read", "slices"} \/ <<docs[ev.id], ev.feature>> \in DOMAIN known THEN known
                                       ELSE LET key == <<docs[ev.id], ev.feature>>
                                            IN [x \in DOMAIN known \cup {key} |-> IF x # key THEN known[x] ELSE IF ev.op = "read" THEN ev.prof ELSE ev.slices]
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED <<docs, known>>
        /\ UNCHANGED <<last, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c, known>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
