------------------------- MODULE NearestSearchTrace -------------------------
EXTENDS NearestSearch, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
Case == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ stored = <<>> /\ query = 0 /\ k = 0 /\ sorted = FALSE /\ threads = 1
             /\ scores = <<>> /\ result = <<>> /\ hist = 0
Judge(ev) ==
    IF ev.op = "add" THEN (IF ev.st = "ok" THEN "" ELSE "adding a code raised " \o ev.st)
    ELSE IF ev.st # "ok" THEN "searching raised " \o ev.st
    ELSE IF ev.op = "encode" THEN (IF ev.got = ev.want THEN "" ELSE "a query is encoded wrongly")
    ELSE LET d == [i \in DOMAIN stored |-> Dist(Case.metric, stored[i], ev.q)] IN
         IF ev.random /\ ev.q \notin SetOf(stored) THEN "a random query is not one of the stored codes"
         ELSE Verdict(d, ev.got, ev.k, ev.sorted)
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ stored' = IF ev.op = "add" THEN stored \o ev.codes ELSE stored
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED stored
        /\ UNCHANGED <<c, query, k, sorted, threads, scores, result, hist>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
