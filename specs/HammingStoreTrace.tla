------------------------- MODULE HammingStoreTrace -------------------------
EXTENDS HammingStore, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
Set(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Set(s)) = Len(s)
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ StoreInit
\* a full search: everything stored, nothing else, each once
Full(got) ==
    IF ~Distinct(got) THEN "an entry is found more than once"
    ELSE IF ~(disk \subseteq Set(got)) THEN "an entry is lost"
    ELSE IF ~(Set(got) \subseteq disk \cup maybe) THEN "an entry that was never stored is found"
    ELSE ""
\* a search while others append: everything stored before it began, nothing not yet attempted
During(r, after) ==
    IF r.st # "ok" THEN "searching during appends raised " \o r.st
    ELSE IF ~Distinct(r.got) THEN "an entry is found more than once"
    ELSE IF ~(disk \cup Set(r.before) \subseteq Set(r.got)) THEN "an entry is lost during appends"
    ELSE IF ~(Set(r.got) \subseteq disk \cup maybe \cup after) THEN "an entry that was never stored is found"
    ELSE ""
Judge(ev) ==
    IF ev.op = "open" THEN
        IF CanOpen(ev.size) THEN (IF ev.st = "ok" THEN "" ELSE "opening raised " \o ev.st)
        ELSE IF ev.st = "ok" THEN "opened with the wrong code size" ELSE ""
    ELSE IF ev.op = "append" THEN (IF ev.st = "ok" THEN "" ELSE "appending raised " \o ev.st)
    ELSE IF ev.op \in {"badappend", "failappend"} THEN
        (IF ev.st = "ok" THEN "an append that must be rejected was not" ELSE "")
    ELSE IF ev.op = "search" THEN
        IF h[ev.h].wo THEN (IF ev.st = "ok" THEN "a write-only handle serves searches" ELSE "")
        ELSE IF ev.st # "ok" THEN "searching raised " \o ev.st
        ELSE Full(ev.got)
    ELSE IF ev.op = "find" THEN
        IF ev.st # "ok" THEN "searching raised " \o ev.st
        ELSE IF ev.got # ev.want THEN "an entry is not found by its code" ELSE ""
    ELSE IF ev.op = "len" THEN
        IF ev.st # "ok" THEN "the number of entries raised " \o ev.st
        ELSE IF ev.n < Cardinality(disk) \/ ev.n > Cardinality(disk \cup maybe)
        THEN "the number of entries is wrong" ELSE ""
    ELSE IF ev.op = "getmeta" THEN
        IF ev.st # "ok" THEN "metadata raised " \o ev.st
        ELSE IF ev.v # meta THEN "metadata changed" ELSE ""
    ELSE IF ev.op = "size" THEN
        IF ev.n # size THEN "the code size changed" ELSE ""
    ELSE IF ev.op = "burst" THEN
        IF ev.st # "ok" THEN "appending at the same time raised " \o ev.st
        ELSE LET bad == {k \in DOMAIN ev.found : During(ev.found[k], Set(ev.tried)) # ""} IN
             IF bad = {} THEN "" ELSE During(ev.found[CHOOSE k \in bad : TRUE], Set(ev.tried))
    ELSE IF ev.op \in {"close", "crash", "setmeta"} THEN (IF ev.st = "ok" THEN "" ELSE ev.op \o " raised " \o ev.st)
    ELSE "harness: unknown event " \o ev.op
\* what was seen settles what a crash left open
Settle(got) == /\ disk' = disk \cup Set(got) /\ maybe' = {} /\ UNCHANGED <<size, meta, phase, acked, tried>>
               /\ UNCHANGED h
Apply(ev) ==
    IF ev.op = "open" THEN Open(ev.h, ev.size, ev.wo)
    ELSE IF ev.op = "append" THEN Whole(ev.h, ev.e)
    ELSE IF ev.op = "search" /\ ~h[ev.h].wo THEN Settle(ev.got)
    ELSE IF ev.op = "close" THEN Close(ev.h)
    ELSE IF ev.op = "crash" THEN Die(ev.h, ev.e)
    ELSE IF ev.op = "setmeta" THEN SetMeta(ev.h, ev.v)
    ELSE IF ev.op = "burst" THEN
        /\ disk' = disk \cup Set(ev.acked) /\ maybe' = maybe \cup (Set(ev.tried) \ Set(ev.acked))
        /\ h' = [i \in Handles |-> IF i \in Set(ev.killed) THEN Closed ELSE h[i]]
        /\ UNCHANGED <<size, meta, phase, acked, tried>>
    ELSE UNCHANGED <<disk, size, meta, h, phase, acked, tried, maybe>>
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ Apply(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<disk, size, meta, h, phase, acked, tried, maybe>>
        /\ UNCHANGED <<c, hist>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
