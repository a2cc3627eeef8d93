------------------------- MODULE IndexListenerTrace -------------------------
(* What an observer knows: done - documents that must be in the index;        *)
(* log - documents announced.  Case.frames[d] is the number of frames of d.   *)
EXTENDS IndexListener, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
SetOf(s) == {s[i] : i \in DOMAIN s}
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ log = <<>> /\ entries = <<>> /\ marks = {} /\ stamp = 0
             /\ inst = <<>> /\ done = {} /\ hist = <<>>
Need(ds) == {<<d, f>> : d \in ds, f \in 1..20} \cap UNION {{<<d, f>> : f \in 1..Case.frames[d]} : d \in ds}
Hits(ev) ==
    LET got == SetOf(ev.got) IN
    IF ~ev.extra THEN "a hit has the wrong extra data"
    ELSE IF \E x \in got : x[2] = 0 THEN "a hit has the wrong document or span of time"
    ELSE IF Cardinality(got) # Len(ev.got) THEN "a frame is indexed more than once"
    ELSE IF ~(got \subseteq Need(SetOf(log) \cup marks)) THEN "something that was never processed is indexed"
    ELSE IF ~(Need(done) \subseteq got) THEN "a frame has not been indexed"
    ELSE IF ev.n # Len(ev.got) THEN "the number of entries is wrong"
    ELSE ""
Judge(ev) ==
    IF ev.op = "hits" THEN (IF ev.st # "ok" THEN "searching raised " \o ev.st ELSE Hits(ev))
    ELSE IF ev.op = "count" THEN
        (IF ev.st # "ok" THEN "counting raised " \o ev.st
         ELSE IF ev.n < Cardinality(Need(done)) \/ ev.n > Cardinality(Need(SetOf(log) \cup marks))
              THEN "the number of entries is wrong" ELSE "")
    ELSE IF ev.op = "unlogged" THEN (IF ev.st = "ok" THEN "listening without an event log did not raise" ELSE "")
    ELSE IF ev.st # "ok" /\ ~ev.interrupted THEN ev.op \o " raised " \o ev.st
    ELSE ""
Apply(ev) ==
    /\ log' = IF ev.op = "process" THEN Append(log, ev.d) ELSE log
    \* stored, though perhaps never announced to this index
    /\ marks' = IF ev.op = "store" THEN marks \cup {ev.d} ELSE marks
    /\ done' = IF ev.op \in {"catchup", "live"} /\ ev.st = "ok" THEN done \cup SetOf(log)
               ELSE IF ev.op = "add" /\ ev.st = "ok" THEN done \cup {ev.d}
               ELSE IF ev.op = "addall" /\ ev.st = "ok" THEN done \cup SetOf(log) \cup marks
               ELSE done
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ Apply(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<log, marks, done>>
        /\ UNCHANGED <<entries, stamp, inst, hist, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
