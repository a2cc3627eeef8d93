----------------------------- MODULE GateTrace ------------------------------
(* st: "served" (a 2xx or an upgrade), "refused" (sent to sign in, or         *)
(* forbidden) or "other"; twin: what an application without a secret said to  *)
(* the same request ("" when it was not asked); same: both said the same;     *)
(* leak: the answer contains what the application serves; hits: how often     *)
(* something was executed because of the request.                             *)
EXTENDS Gate, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ kind = Cases[c].kind /\ protected = Cases[c].protected
             /\ jar = [x \in Clients |-> "none"] /\ members = {} /\ effects = 0 /\ served = {} /\ hist = <<>>
Judge(ev) ==
    IF ev.ev = "login" THEN
        IF ev.x = "right" THEN IF ev.st # "served" THEN "signing in with the secret was refused" ELSE ""
        ELSE IF ev.st = "served" THEN "signed in without the secret"
        ELSE IF ev.st # "refused" THEN "a wrong guess was not answered as one"
        ELSE IF ev.leak THEN "refusing to sign in gave something away" ELSE ""
    ELSE IF ev.ev # "req" THEN ""
    ELSE IF Allowed(ev.c) THEN
        IF ev.m = Natural(ev.x) /\ ev.st # "served" THEN "was refused although allowed"
        ELSE IF ev.m = Natural(ev.x) /\ Effect(ev.x, ev.m) /\ ev.hits = 0 THEN "was not executed although allowed"
        ELSE IF protected /\ ~ev.same THEN "was not given what an open application gives"
        ELSE ""
    ELSE IF ev.hits # 0 THEN "something was executed for a request without the secret"
    ELSE IF ev.st = "served" THEN "was served without the secret"
    ELSE IF ev.leak THEN "being refused gave something away"
    ELSE ""
Do(ev) == jar' = IF ev.ev = "login" THEN IF ev.x = "right" THEN [jar EXCEPT ![ev.c] = "good"] ELSE jar
                 ELSE IF ev.ev = "cookie" THEN [jar EXCEPT ![ev.c] = ev.x]
                 ELSE IF ev.ev = "share" THEN [jar EXCEPT ![ev.x] = "good"] ELSE jar
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ Do(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED jar
        /\ UNCHANGED <<kind, protected, members, effects, served, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
