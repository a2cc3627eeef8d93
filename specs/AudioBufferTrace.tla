-------------------------- MODULE AudioBufferTrace --------------------------
EXTENDS AudioBuffer, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ buf = Cases[c].start /\ ch = Cases[c].ch /\ hist = <<>>
\* what each operation must give: [frames, channels]
Want(ev) ==
    CASE ev.op = "new" -> <<buf, ch>>
      [] ev.op = "stereo" -> <<Stereo(buf, ch), 2>>
      [] ev.op = "mono" -> <<Mono(buf, ch), 1>>
      [] ev.op = "pad" -> <<Padded(buf, ev.k, ch), ch>>
      [] ev.op = "silence_like" -> <<Silence(ev.k, ch), ch>>
      [] ev.op = "silence" -> <<Silence(ev.k, ev.j), ev.j>>
      [] ev.op = "mix" -> <<Mix(buf, ev.other), ch>>
      [] ev.op = "join" -> <<buf \o ev.other, ch>>
      [] ev.op = "cut" -> <<SubSeq(buf, ev.k + 1, ev.j), ch>>
      [] ev.op = "encode" -> <<buf, ch>>
      [] ev.op = "refuse" -> <<buf, ch>>
Clause(ev) ==
    LET w == Want(ev) IN
    IF ev.op = "mono" /\ ~Even THEN "harness: odd sum"
    ELSE IF ev.op = "refuse" THEN (IF ev.st = "ok" THEN "samples of another rate, or without an audio rate, were accepted" ELSE "")
    ELSE IF ev.st # "ok" THEN ev.op \o " raised " \o ev.st
    ELSE IF ~ev.audio THEN ev.op \o " did not give audio samples"
    ELSE IF ev.sr # Case.sr THEN ev.op \o " changed the sample rate"
    ELSE IF ev.ch # w[2] THEN ev.op \o " gave the wrong number of channels"
    ELSE IF Len(ev.res) # Len(w[1]) THEN ev.op \o " gave the wrong duration"
    ELSE IF ev.res # w[1] THEN ev.op \o " gave other samples than it should"
    ELSE ""
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Clause(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ buf' = (IF ev.op = "refuse" THEN buf ELSE ev.res) /\ ch' = (IF ev.op = "refuse" THEN ch ELSE ev.ch)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<buf, ch>>
        /\ UNCHANGED <<hist, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
