-------------------------- MODULE ReplSessionTrace --------------------------
(* Each event is a statement sent to an application, with its answer, or the  *)
(* retrieval of a link; content is the value that the content of the link     *)
(* shows (-1: there's none, -2: it can't be told).                            *)
EXTENDS ReplSession, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ ns = [a \in Apps |-> [v \in Names |-> Undef]] /\ ticks = [a \in Apps |-> 0]
             /\ links = <<>> /\ answer = Text("") /\ hist = <<>>
Judge(ev) ==
    IF ev.op = "open" THEN
        LET l == links[ev.k] IN
        IF l[1] # ev.app THEN IF ev.st = 200 THEN "an application gave another one's result" ELSE ""
        ELSE IF ev.st # 200 THEN "a result that was linked is gone"
        ELSE IF ev.content # l[2] THEN "a link has other content than it had" ELSE ""
    ELSE LET x == Reply(ev.app, ev.op, ev.v, ev.k) IN
        IF x.err # "" THEN
            IF ev.err # x.err THEN "an error was not answered"
            ELSE IF ev.st < 400 THEN "an error was answered like a success" ELSE ""
        ELSE IF ev.err # "" \/ ev.st # 200 THEN "a statement that works was answered with an error"
        ELSE IF ev.res # x.res THEN "the answer is not that of the statement"
        ELSE IF x.link THEN
            IF ~ev.link THEN "there's no link"
            ELSE IF ev.content # x.content THEN "the link shows something else than the value" ELSE ""
        ELSE ""
Do(ev) ==
    IF ev.op = "open" THEN UNCHANGED <<ns, ticks, links>>
    ELSE LET x == Reply(ev.app, ev.op, ev.v, ev.k) IN
         /\ ns' = [ns EXCEPT ![ev.app] = NextNs(ev.app, ev.op, ev.v, ev.k)]
         /\ ticks' = IF ev.op = "tick" THEN [ticks EXCEPT ![ev.app] = @ + 1] ELSE ticks
         /\ links' = IF x.link THEN Append(links, <<ev.app, x.content>>) ELSE links
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ Do(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED <<ns, ticks, links>>
        /\ UNCHANGED <<answer, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
