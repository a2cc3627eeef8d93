--------------------------- MODULE ByteFeedTrace ---------------------------
EXTENDS ByteFeed, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e, pos
tvars == <<vars, c, e, pos>>
Case == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ pos = 0
             /\ n = Cases[c].n /\ h = 0 /\ b = 1 /\ want = 0 /\ mx = 0 /\ whole = FALSE
             /\ wr = 0 /\ base = 0 /\ rd = 0 /\ out = <<>> /\ hist = <<>> /\ done = FALSE
\* ---- the buffer alone: byte i of the file has the value i % 251 ----
Bytes(from, k) == [i \in 1..k |-> (from + i - 1) % 251]
BufClause(ev) ==
    IF ev.st # "ok" THEN "the buffer raised " \o ev.st
    ELSE IF ev.op = "w" /\ ev.res # ev.m THEN "a write did not take all bytes"
    ELSE IF ev.op = "r" /\ ev.got # Bytes(rd, IF ev.m < 0 THEN wr - rd ELSE Min2(ev.m, wr - rd))
         THEN "a read did not give the next bytes of the file"
    ELSE IF ev.op = "seek" /\ ~(base <= ev.m /\ ev.m <= wr) THEN "harness: seek"
    ELSE IF ev.op = "tell" /\ ev.res # rd THEN "the buffer does not know its position in the file"
    ELSE IF ev.op = "len" /\ ev.res # n THEN "the end of the file is not at its total length"
    ELSE ""
BufRd(ev) == CASE ev.op = "r" -> rd + (IF ev.m < 0 THEN wr - rd ELSE Min2(ev.m, wr - rd))
               [] ev.op = "seek" -> ev.m [] ev.op = "len" -> ev.m [] OTHER -> rd
\* ---- the decoder: runs [start % modulo, length] of consecutive samples ----
RECURSIVE Follow(_, _)
Follow(p, runs) == IF runs = <<>> THEN p
                   ELSE IF runs[1][1] # p % Case.modulo THEN -1
                   ELSE Follow(p + runs[1][2], Tail(runs))
StreamClause(ev) ==
    LET p == Follow(pos, ev.runs) IN
    IF ev.st # "ok" THEN "decoding raised " \o ev.st
    ELSE IF p = -1 THEN "the samples are not the ones that follow in the file"
    ELSE IF p > n THEN "more samples than the file holds"
    ELSE IF ev.runs # <<>> /\ ev.sr # Case.sr THEN "the samples do not carry the sample rate of the file"
    ELSE IF ev.runs # <<>> /\ ev.ch # Case.ch THEN "the samples do not have the requested channels"
    ELSE IF ev.m = 0 /\ p # n THEN "not every sample of the file was decoded"
    ELSE ""
Clause(ev) == IF Case.kind = "buffer" THEN BufClause(ev) ELSE StreamClause(ev)
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Clause(ev) IN
            IF m = "" THEN
                /\ e' = e + 1
                /\ IF Case.kind = "buffer"
                   THEN /\ rd' = BufRd(ev) /\ wr' = (IF ev.op = "w" THEN wr + ev.m ELSE wr) /\ pos' = pos
                        \* what lies before the position at the last write may be gone
                        /\ base' = (IF ev.op = "w" THEN rd ELSE base)
                   ELSE /\ pos' = Follow(pos, ev.runs) /\ UNCHANGED <<rd, wr, base>>
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<rd, wr, pos, base>>
        /\ UNCHANGED <<n, h, b, want, mx, whole, out, hist, done, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c, pos>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
