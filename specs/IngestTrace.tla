----------------------------- MODULE IngestTrace -----------------------------
(* The events of a case are what its document class saw (process being called *)
(* for an item and ending), and the return of ingest with what is stored      *)
(* afterwards and which failures were reported.                               *)
EXTENDS Ingest, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
Set(s) == {s[k] : k \in DOMAIN s}
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ items = Cases[c].items /\ good = {} /\ avail = 0 /\ skip = FALSE /\ next = 1 /\ busy = {}
             /\ there = {} /\ full = {} /\ tries = [i \in DOMAIN Cases[c].items |-> 0] /\ reported = {} /\ over = TRUE /\ pass = 0
             /\ before = {} /\ hist = <<>>
Nameless == Set(K.nameless)
Anonymous(i) == items[i] \in Nameless
\* something another item of the same url left behind, perhaps for a while, when it failed
Leftover(i, ev) == \E j \in reported : items[j] = items[i]
Judge(ev) ==
    IF ev.op = "begin" THEN IF over THEN "" ELSE "harness: not over"
    ELSE IF ev.op = "start" THEN
        IF over THEN "processing when ingest has returned"
        ELSE IF ev.i > avail THEN "harness: no such item"
        ELSE IF tries[ev.i] > 0 THEN "an item was processed more than once"
        ELSE IF skip /\ items[ev.i] \in before THEN "an item that is there already was processed"
        ELSE IF skip /\ K.workers = 1 /\ items[ev.i] \in there THEN "an item that is there already was processed"
        ELSE IF Cardinality(busy) >= K.workers THEN "more items at once than there are workers"
        ELSE IF K.workers = 1 /\ \E j \in Ix : j > ev.i /\ tries[j] > 0 THEN "items are not taken in order"
        ELSE ""
    ELSE IF ev.op = "end" THEN
        IF ev.i \notin busy THEN "harness: was not being processed"
        ELSE IF ev.ok # (items[ev.i] \in good) THEN IF ev.ok THEN "harness: should have failed" ELSE "an item that is alright failed"
        ELSE ""
    ELSE \* over
        IF busy # {} THEN "returned before all was done"
        ELSE IF \E i \in 1..avail : tries[i] = 0 /\ ~Anonymous(i) /\ ~(skip /\ (items[i] \in there \/ Leftover(i, ev))) THEN "an item was left out"
        ELSE IF avail = Len(items) /\ ev.st # "ok" THEN "raised " \o ev.st
        ELSE IF avail < Len(items) /\ ev.st # "Broken" THEN "the dataset breaking off went unnoticed"
        ELSE IF \E u \in full : u \notin Set(ev.full) THEN "what was processed is not stored (or is altered)"
        ELSE IF \E u \in before : u \notin Set(ev.there) /\ \A i \in Ix : items[i] # u \/ tries[i] = 0 THEN "what was stored has gone"
        ELSE IF \E u \in Set(ev.there) \ before : \A i \in Ix : items[i] # u \/ tries[i] = 0 THEN "something else was stored"
        ELSE IF \E i \in reported : i \notin Set(ev.reported) THEN "a failure was not reported"
        ELSE ""
Do(ev) ==
    IF ev.op = "begin" THEN
        /\ good' = Set(ev.good) /\ avail' = ev.i /\ skip' = ev.skip /\ over' = FALSE /\ pass' = pass + 1
        /\ there' = Set(ev.there) /\ full' = Set(ev.full) /\ before' = Set(ev.there)
        /\ tries' = Zero /\ reported' = {} /\ busy' = {}
    ELSE IF ev.op = "start" THEN
        /\ busy' = busy \union {ev.i} /\ tries' = [tries EXCEPT ![ev.i] = 1]
        /\ UNCHANGED <<good, avail, skip, there, full, reported, over, pass, before>>
    ELSE IF ev.op = "end" THEN
        /\ busy' = busy \ {ev.i}
        \* another attempt at the same time may have failed since
        /\ IF ev.ok THEN /\ there' = there \union {items[ev.i]} /\ UNCHANGED reported
                         /\ full' = full \union {items[ev.i]}
           ELSE reported' = reported \union {ev.i} /\ full' = full \ {items[ev.i]} /\ there' = there
        /\ UNCHANGED <<good, avail, skip, tries, over, pass, before>>
    ELSE over' = TRUE /\ UNCHANGED <<good, avail, skip, busy, there, full, tries, reported, pass, before>>
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ Do(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
                 /\ UNCHANGED <<good, avail, skip, busy, there, full, tries, reported, over, pass, before>>
        /\ UNCHANGED <<items, next, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT((IF over THEN "OK " \o ToString(c) ELSE "BAD " \o ToString(c) \o " " \o ToString(e) \o " harness: not over"))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
