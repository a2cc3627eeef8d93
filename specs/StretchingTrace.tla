-------------------------- MODULE StretchingTrace --------------------------
(* The events of a real sound are bursts of a tone: <<first, after, hz>> in   *)
(* samples.  A result is looked at in blocks of 64 samples: loud blocks, blocks*)
(* that are not silent, and the frequency of stretches of loud blocks.  With  *)
(* every operation that works with windows, moments are known to a window.    *)
EXTENDS Stretching, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e,
          now,  \* per sound: the events, or the positions of its clicks
          len, slack
tvars == <<vars, c, e, now, len, slack>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ now = K.items /\ len = K.n /\ slack = 0
             /\ batch = <<>> /\ begun = <<>> /\ stretched = <<1, 1>> /\ shifted = 0 /\ delayed = <<>> /\ hist = <<>>
\* 10000 times the factor of s semitones
Up == <<10595, 11225, 11892, 12599, 13348, 14142, 14983, 15874, 16818, 17818, 18877, 20000>>
Semitones(hz, s) == IF s = 0 THEN hz ELSE IF s > 0 THEN (hz * Up[s]) \div 10000 ELSE (hz * 10000) \div Up[-s]
B == 64
InBand(ev, b) == ev.band = <<>> \/ (ev.band[1] <= b[3] /\ b[3] <= ev.band[2])
Moved(ev, b) ==
    CASE ev.op = "stretch" -> <<(b[1] * ev.q) \div ev.p, (b[2] * ev.q) \div ev.p, b[3]>>
      [] ev.op = "pitch" -> <<b[1], b[2], Semitones(b[3], ev.p)>>
      [] ev.op = "delay" -> IF InBand(ev, b) THEN <<b[1] + ev.p, b[2] + ev.p, b[3]>> ELSE b
      [] OTHER -> b
Clicks == K.kind = "clicks"
Then(ev) == IF Clicks THEN [i \in DOMAIN now |-> [j \in DOMAIN now[i] |-> (now[i][j] + ev.p) % len]]
            ELSE [i \in DOMAIN now |-> [j \in DOMAIN now[i] |-> Moved(ev, now[i][j])]]
LenThen(ev) == IF ev.op = "stretch" THEN (len * ev.q) \div ev.p ELSE len
SlackThen(ev) == CASE ev.op = "stretch" -> (slack * ev.q) \div ev.p + K.window
                   [] ev.op = "pitch" -> 2 * slack + 2 * K.window
                   [] OTHER -> slack
SetOf(s) == {s[j] : j \in DOMAIN s}
Overlaps(run, b, sl) == run[1] * B < b[2] + sl /\ (run[2] + 1) * B > b[1] - sl
JudgeSound(b, r, sl) == \* b: events, r: what was found
    IF \E j \in DOMAIN b : LET mid == (b[j][1] + b[j][2]) \div 2 IN
         ~\E k \in DOMAIN r.loud : r.loud[k][1] * B <= mid + sl \div 2 + B /\ (r.loud[k][2] + 1) * B >= mid - sl \div 2 - B
    THEN "silent where there is a sound"
    ELSE IF \E k \in DOMAIN r.heard : \E x \in r.heard[k][1]..r.heard[k][2] : ~\E j \in DOMAIN b : Overlaps(<<x, x>>, b[j], sl + B)
    THEN "not silent where there is silence"
    ELSE IF \E k \in DOMAIN r.peaks : LET p == r.peaks[k] near == {j \in DOMAIN b : Overlaps(p, b[j], sl)} IN
         /\ (p[2] - p[1] + 1) * B >= K.window /\ Cardinality(near) = 1
         /\ \E j \in near : p[3] - b[j][3] \notin -(b[j][3] \div 50 + K.rate \div (B * (p[2] - p[1] + 1)))..(b[j][3] \div 50 + K.rate \div (B * (p[2] - p[1] + 1)))
    THEN "another pitch"
    ELSE ""
Judge(ev) ==
    IF ev.st # "ok" THEN "failed"
    ELSE IF ev.axes # "" THEN ev.axes
    ELSE IF ev.off > 100 THEN "is not the sound, or depends on the other sounds"
    ELSE IF ev.op = "spectrum" THEN
        IF ev.cols # (K.n + ev.p) \div 2 + 1 THEN "another number of coefficients"
        ELSE IF ev.bands # ev.cols THEN "the frequency axis has another number of bands than the data"
        ELSE IF Len(ev.found) # Len(now) THEN "another number of sounds"
        ELSE IF \E i \in DOMAIN now : LET r == ev.found[i].peaks[1] hz == now[i][1][3] IN
             ~(r[1] - (3 * K.rate) \div K.n - 2 <= hz /\ hz <= r[2] + (3 * K.rate) \div K.n + 2) THEN "shows another frequency"
        ELSE ""
    ELSE IF Len(ev.found) # Len(now) THEN "another number of sounds"
    ELSE IF ev.len # LenThen(ev) THEN "another length"
    ELSE IF Clicks THEN
        IF \E i \in DOMAIN now : SetOf(ev.found[i].loud) # SetOf(Then(ev)[i]) \/ Len(ev.found[i].loud) # Len(now[i]) THEN "moved by another time"
        ELSE ""
    ELSE LET th == Then(ev)
             bad == {i \in DOMAIN now : JudgeSound(th[i], ev.found[i], SlackThen(ev)) # ""}
         IN IF bad = {} THEN "" ELSE JudgeSound(th[CHOOSE i \in bad : TRUE], ev.found[CHOOSE i \in bad : TRUE], SlackThen(ev))
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ IF ev.op = "spectrum" THEN UNCHANGED <<now, len, slack>>
                              ELSE now' = Then(ev) /\ len' = ev.len /\ slack' = SlackThen(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED <<now, len, slack>>
        /\ UNCHANGED <<vars, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c, now, len, slack>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
