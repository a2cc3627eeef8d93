--------------------------- MODULE GrowableTrace ---------------------------
(* Values are given in halves, so that what a type of values makes of them   *)
(* (truncating, true or false) is decided here.                              *)
EXTENDS Growable, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
W == Case.width
Trunc(h) == IF h >= 0 THEN 2 * (h \div 2) ELSE 0 - 2 * ((0 - h) \div 2)
Cast(h) == IF Case.kind = "int" THEN Trunc(h) ELSE IF Case.kind = "bool" THEN (IF h = 0 THEN 0 ELSE 2) ELSE h
\* an item is a row, or one value for the whole row
Row(it) == [j \in 1..W |-> Cast(IF Len(it) = 1 THEN it[1] ELSE it[j])]
Rows(items) == [i \in DOMAIN items |-> Row(items[i])]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ start = <<Cases[c].phys, Cases[c].pos>> /\ rate = 1 /\ pc = "idle" /\ pend = <<>>
             /\ added = [i \in 1..Cases[c].pos |-> IF i <= Len(Cases[c].init) THEN Cases[c].init[i] ELSE <<Junk>>]
             /\ pos = Cases[c].pos /\ buf = <<>> /\ hist = <<>>
After(ev) == IF ev.bad THEN added ELSE added \o Rows(ev.items)
Judge(ev) ==
    LET want == After(ev) IN
    IF ev.bad /\ ev.st = "ok" THEN "harness: an addition that cannot be made was accepted"
    ELSE IF ~ev.bad /\ ev.st # "ok" THEN "adding raised " \o ev.st
    ELSE IF ev.rst # "ok" THEN "reading raised " \o ev.rst
    ELSE IF ev.size # Len(want) THEN "the size is not the number of items that were added"
    ELSE IF Len(ev.rows) # Len(want) /\ (ev.rows = <<>> \/ want[Len(want)] # <<Junk>>) /\ (want # <<>> /\ want[Len(want)] # <<Junk>>)
         THEN "the number of items read differs from the number added"
    ELSE IF want = <<>> /\ ev.rows # <<>> THEN "an empty buffer has content"
    ELSE IF \E i \in DOMAIN ev.rows : want[i] # <<Junk>> /\ ev.rows[i] # want[i] THEN "the content is not what was added"
    ELSE IF ev.phys < ev.size /\ ev.size > start[2] THEN "there is less memory than content"
    ELSE IF ev.old # added /\ (\E i \in DOMAIN ev.old : added[i] # <<Junk>> /\ ev.old[i] # added[i]) THEN "content read earlier was changed"
    ELSE ""
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1 /\ added' = After(ev) /\ pos' = Len(added')
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<added, pos>>
        /\ UNCHANGED <<buf, rate, pc, pend, start, hist, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
