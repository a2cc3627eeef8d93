-------------------------- MODULE RangeServeTrace ---------------------------
(* Each event is a request for a resource (of some size and kind) and its     *)
(* answer: the status, the range and total of the label (-1: there's none,    *)
(* -2: they can't be read) and which part of the resource the body is (-2: it *)
(* is none).                                                                  *)
EXTENDS RangeServe, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ size = Cases[c].size /\ kind = Cases[c].kind /\ answer = Whole /\ hist = <<>>
(* ranges that make no sense, and those of time that can't be asked for, may  *)
(* just as well be refused *)
MayRefuse(ev, n) == \/ ev.unit \in {"other", "broken"}
                    \/ ev.form = "closed" /\ ev.b < ev.a
                    \/ ev.unit = "seconds" /\ (kind = "bytes" \/ ev.form = "suffix")
Judge(ev) ==
    LET n == IF ev.unit = "seconds" /\ kind = "both" THEN K.length ELSE size
        x == Answer(n, kind, ev.unit, ev.form, ev.a, ev.b)
        (* an answer that isn't partial always consists of bytes, if there are any *)
        whole == IF kind = "time" THEN n ELSE size
    IN  IF ev.st = 416 THEN
            IF x.st # 416 /\ ~MayRefuse(ev, n) THEN "a range there is was refused"
            ELSE IF ev.from # ev.to THEN "a refused request was given a part of the resource"
            ELSE IF ev.total \notin {-1, n} THEN "the total given with a refusal is not the size of the resource"
            ELSE ""
        ELSE IF ev.st \notin {200, 206} THEN "the request failed"
        ELSE IF x.st = 416 THEN "a range there isn't was not refused"
        ELSE IF ev.st # x.st THEN IF ev.st = 206 THEN "part of the resource was given although all was asked for" ELSE "the range was ignored"
        ELSE IF ev.from # x.from \/ ev.to # (IF x.st = 200 THEN whole ELSE x.to) THEN "the body is not what was asked for"
        ELSE IF ev.first # x.first \/ ev.last # x.last THEN "the label is not the range of the body"
        ELSE IF ev.total # (IF x.st = 206 THEN n ELSE -1) THEN "the total is not the size of the resource"
        ELSE IF kind # "time" /\ ev.offer # "bytes" THEN "that ranges of bytes can be asked for was not said"
        ELSE ""
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
        /\ UNCHANGED <<vars, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
