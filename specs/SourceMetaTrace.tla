--------------------------- MODULE SourceMetaTrace ---------------------------
(* A put event says what the document was made from (given), what came out of *)
(* the root of the graph (root) and what was read from where that points      *)
(* (bytes; range: what the server was asked for).  A get event says what was  *)
(* kept.                                                                      *)
EXTENDS SourceMeta, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ kept = [d \in 1..3 |-> 0] /\ made = 0 /\ seen = 0 /\ who = 0 /\ hist = <<>>
Web(ev) == ev.at = "web"
\* what is known about a source
Known(ev) == IF ev.kind \in {"path", "file"} THEN ev.given.sound ELSE IF ev.kind = "meta" THEN ev.given.info ELSE [none |-> ""]
RootOf(ev) == [loc |-> ev.given.loc] @@ Known(ev)
\* an open file cannot be referred to later
KeptOf(ev) == [loc |-> IF ev.given.loc = "#file" THEN "" ELSE ev.given.loc] @@ Known(ev)
AskedFor(ev) == IF ev.kind = "meta" THEN ev.given.range ELSE IF ev.given.range = "" THEN "bytes=0-" ELSE ev.given.range
JudgePut(ev) ==
    IF ev.st # "ok" THEN "the document could not be made"
    ELSE IF ev.root # RootOf(ev) THEN "the root of the graph says something else about the source"
    ELSE IF Web(ev) /\ ev.range # AskedFor(ev) THEN "another part was asked for"
    ELSE IF ~ev.same THEN "what was given has been altered"
    ELSE IF ~ev.whole THEN "something else was read"
    ELSE ""
JudgeGet(ev) ==
    IF kept[ev.doc] = 0 THEN IF ev.st = "ok" THEN "there is no such document" ELSE ""
    ELSE IF ev.st # "ok" THEN "what is known about the source was lost"
    ELSE IF ev.kept # KeptOf(K.events[kept[ev.doc]]) THEN "something else is known about the source now"
    ELSE ""
Judge(ev) == IF ev.op = "put" THEN JudgePut(ev) ELSE JudgeGet(ev)
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ kept' = IF ev.op = "put" THEN [kept EXCEPT ![ev.doc] = e] ELSE kept
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED kept
        /\ UNCHANGED <<made, seen, who, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
