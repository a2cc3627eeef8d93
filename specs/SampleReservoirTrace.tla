------------------------ MODULE SampleReservoirTrace ------------------------
EXTENDS SampleReservoir, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e, held, places
tvars == <<vars, c, e, held, places>>
Case == Cases[c]
Cap == Case.cap
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ held = <<>> /\ places = [p \in 1..Cases[c].cap |-> 0]
             /\ slot = 0 /\ pc = 0 /\ cur = 0 /\ todo = 0 /\ lock = "" /\ offered = {} /\ view = 0 /\ hist = <<>>
Filled == SelectSeq(places, LAMBDA x : x # 0)
\* offers in which every sample is given its place
Explicit(ev) == Write(places, ev.where, ev.ids)
Held(pl) == SelectSeq(pl, LAMBDA x : x # 0)
\* several offers by concurrent threads, judged at the end
AllClause(ev) ==
    LET ids == offered \cup SetOf(ev.ids) after == ev.now IN
    IF Len(after) > Cap THEN "more samples are held than there is room for"
    ELSE IF ev.op # "draws" /\ Len(after) # Cardinality(SetOf(after)) THEN "a sample is held twice"
    ELSE IF ~ (SetOf(after) \subseteq ids) THEN "a sample is held that was never offered"
    ELSE IF Len(after) < Len(held) THEN "samples got lost"
    ELSE ""
Judge(ev) ==
    IF ev.st = "hang" THEN "an operation never ended"
    ELSE IF ~ ev.aligned THEN "the keys hold different samples at the same position"
    ELSE IF ev.mangled THEN "a sample is held that is not what was offered"
    ELSE IF ev.oldst # "ok" THEN "what was handed out earlier was changed"
    ELSE IF ev.op = "add" THEN
        IF ev.st # "ok" THEN "an offer raised " \o ev.st
        ELSE AddClause(held, ev.ids, ev.now, Cap)
    ELSE IF ev.op = "place" THEN
        IF ev.st # "ok" THEN "an offer raised " \o ev.st
        ELSE IF ev.now # Held(Explicit(ev)) THEN "samples are not at the places they were offered for"
        ELSE ""
    ELSE IF ev.op \in {"threads", "draws"} THEN (IF ev.st # "ok" THEN "a thread raised " \o ev.st ELSE AllClause(ev))
    ELSE IF ev.op = "bad" THEN
        IF ev.st = "ok" THEN "an inconsistent offer (" \o ev.kind \o ") was accepted"
        ELSE IF ev.now # held THEN "a refused offer changed what is held" ELSE ""
    ELSE IF ev.op = "batch" THEN
        IF ev.n > Len(held) THEN (IF ev.st = "ok" THEN "a batch larger than what is held was handed out"
                                  ELSE IF ev.now # held THEN "reading changed what is held" ELSE "")
        ELSE IF ev.st # "ok" THEN "reading a batch raised " \o ev.st
        ELSE IF Len(ev.batch) # ev.n THEN "a batch has the wrong size"
        ELSE IF ~ (SetOf(ev.batch) \subseteq SetOf(held)) THEN "a batch holds something that is not held"
        ELSE IF ev.now # held THEN "reading changed what is held" ELSE ""
    ELSE IF ev.op = "node" THEN     \* the whole stream went through, and this came out at the end
        IF ev.st # "ok" THEN "sampling a stream raised " \o ev.st
        ELSE IF ev.outs # 1 THEN "the samples were not handed out exactly once, at the end"
        ELSE IF ev.exact /\ Len(ev.ids) <= Cap /\ (SetOf(ev.now) # SetOf(ev.ids) \/ Len(ev.now) # Len(ev.ids))
             THEN "not every sample is held although there is room"
        ELSE IF ev.exact /\ Len(ev.ids) > Cap /\ Len(ev.now) # Cap THEN "the reservoir is not full"
        ELSE IF ev.ids # <<>> /\ ev.now = <<>> THEN "samples got lost"
        ELSE AllClause(ev)
    ELSE IF ev.op = "even" THEN     \* how often each of the samples of a stream was kept
        IF ev.st # "ok" THEN "sampling a stream raised " \o ev.st
        ELSE LET m == Len(ev.counts) n == Cap IN
             IF \E i \in 1..m : LET d == ev.counts[i] * m - ev.runs * n IN d * d > 49 * ev.runs * n * (m - n)
             THEN "some samples of the stream are kept more often than others" ELSE ""
    ELSE "harness: unknown event"
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1 /\ held' = (IF ev.op = "even" THEN held ELSE ev.now)
                           /\ offered' = offered \cup SetOf(ev.ids)
                           /\ places' = IF ev.op = "place" THEN Explicit(ev) ELSE places
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<held, offered, places>>
        /\ UNCHANGED <<c, slot, pc, cur, todo, lock, view, hist>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c, held, places>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
