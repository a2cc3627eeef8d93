--------------------------- MODULE NoteNamesTrace ---------------------------
(* Each event is a question answered by the code: name (the name of number n, *)
(* split into letters and octave), number (the number of a name), bad (of a   *)
(* text which names no note), instrument (the name of program n).             *)
EXTENDS NoteNames, IOUtils, FiniteSets
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e, told
tvars == <<vars, c, e, told>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ told = {}
             /\ pc = 1 /\ oct = 0 /\ moved = 0 /\ hist = <<>>
Judge(ev) ==
    IF ev.op = "name" THEN
        IF ~ev.st THEN "a number has no name"
        ELSE IF ev.name # Name(ev.n) \/ ev.text # Name(ev.n) \o ToString(Octave(ev.n)) THEN "a number has another name"
        ELSE ""
    ELSE IF ev.op = "number" THEN
        IF ~ev.st THEN "a name has no number"
        ELSE IF ev.out # Number(CHOOSE p \in 1..12 : Classes[p] = ev.name, ev.n) THEN "a name has another number"
        ELSE ""
    ELSE IF ev.op = "bad" THEN IF ev.st THEN "what is no name has a number" ELSE ""
    ELSE IF ev.n \in 0..127 THEN
        IF ~ev.st THEN "an instrument has no name"
        ELSE IF \E x \in told : x[2] = ev.text /\ x[1] # ev.n THEN "two instruments have the same name"
        ELSE IF \E x \in told : x[1] = ev.n /\ x[2] # ev.text THEN "an instrument has two names"
        ELSE ""
    ELSE IF ev.st THEN "what is no instrument has a name" ELSE ""
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ told' = IF ev.op = "instrument" THEN told \cup {<<ev.n, ev.text>>} ELSE told
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED told
        /\ UNCHANGED <<vars, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c, told>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
