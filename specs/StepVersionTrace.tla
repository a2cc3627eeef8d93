-------------------------- MODULE StepVersionTrace --------------------------
(* What each instance contains follows from how it was made; versions that   *)
(* were seen are compared with the versions of everything seen before.       *)
EXTENDS StepVersion, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e, made, known
tvars == <<vars, c, e, made, known>>
Case == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ made = <<>> /\ known = {}
             /\ inst = <<>> /\ store = {} /\ reads = {} /\ hist = <<>>
Makes(ev) == ev.op \in {"build", "reload", "send", "slice", "pick"}
ContentOf(ev) ==
    IF ev.op = "build" THEN ev.steps
    ELSE IF ev.op = "slice" THEN SubSeq(made[ev.i], ev.lo, ev.hi)
    ELSE IF ev.op = "pick" THEN [k \in DOMAIN ev.idx |-> made[ev.i][ev.idx[k]]]
    ELSE made[ev.i]
\* pairs of what was versioned and its version
Seen(ev) == LET ct == ContentOf(ev) IN
    {[of |-> "pipeline", content |-> ct, conv |-> "", v |-> ev.v]}
    \union {[of |-> "step", content |-> <<ct[k]>>, conv |-> "", v |-> ev.sv[k]] : k \in DOMAIN ev.sv}
    \union (IF ev.fv = "" THEN {} ELSE {[of |-> "feature", content |-> ct, conv |-> ev.conv, v |-> ev.fv]})
Same(s, t) == s.content = t.content /\ s.conv = t.conv
Judge(ev) ==
    LET ct == ContentOf(ev)
        key == [doc |-> ev.doc, content |-> ct, conv |-> ev.conv]
        new == Seen(ev)
    IN
    IF ev.st # "ok" THEN "raised " \o ev.st
    ELSE IF Len(ev.sv) # Len(ct) THEN "the pipeline does not have the steps it was made of"
    ELSE IF \E s \in new, t \in known \union new : s.of = t.of /\ Same(s, t) /\ s.v # t.v
         THEN "the version differs although the content is the same"
    ELSE IF \E s \in new, t \in known \union new : s.of = t.of /\ ~Same(s, t) /\ s.v = t.v
         THEN "the version is the same although the content differs"
    ELSE IF ev.op = "read" /\ key \in store /\ ev.computed # 0 THEN "a stored feature was computed again"
    ELSE IF ev.op = "read" /\ key \notin store /\ ev.computed # 1 THEN "a feature was not computed although its pipeline is new"
    ELSE IF ev.op = "read" /\ ~ev.match THEN "a feature is not what its pipeline computes"
    ELSE ""
Step == /\ e <= Len(Case)
        /\ LET ev == Case[e] m == Judge(ev) IN
            IF m = "" THEN
                /\ e' = e + 1
                /\ made' = IF Makes(ev) THEN Append(made, ContentOf(ev)) ELSE made
                /\ known' = known \union Seen(ev)
                /\ store' = IF ev.op = "read" THEN store \union {[doc |-> ev.doc, content |-> ContentOf(ev), conv |-> ev.conv]} ELSE store
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case) + 2 /\ UNCHANGED <<made, known, store>>
        /\ UNCHANGED <<inst, reads, hist, c>>
Done == /\ e = Len(Case) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c, made, known>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
