-------------------------- MODULE LearnBarrierTrace --------------------------
(* Each event is one delivery (a chunk, or the end) of an input, with         *)
(* everything the learner was trained with and every pipeline made until the  *)
(* next delivery.  Cases with at = "end" only saw the whole run.              *)
EXTENDS LearnBarrier, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e, n
tvars == <<vars, c, e, n>>
K == Cases[c]
In == DOMAIN K.sizes
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ n = 0
             /\ streaming = Cases[c].streaming /\ sizes = Cases[c].sizes /\ steps = <<>>
             /\ left = [i \in DOMAIN Cases[c].sizes |-> Len(Cases[c].sizes[i])]
             /\ coll = <<>> /\ queue = <<>> /\ slots = <<>> /\ trained = <<>> /\ parts = <<>> /\ built = <<>> /\ hist = <<>>
After(ev) == IF ev.i = 0 THEN [i \in In |-> -1] ELSE [left EXCEPT ![ev.i] = @ - 1]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Delivered(l, i) == IF l[i] = -1 THEN Len(sizes[i]) ELSE Len(sizes[i]) - l[i]
\* how often something must have been learned when these are left
Due2(l) == IF streaming THEN Least({Delivered(l, i) : i \in In})
           ELSE IF (\A i \in In : l[i] = -1) /\ (\A i \in In : sizes[i] # <<>>) THEN 1 ELSE 0
Want(i, k) == IF streaming THEN Chunk(i, k) ELSE All(i)
Range(s) == {s[j] : j \in DOMAIN s}
\* exactly what arrived; the same samples in any order; or some of them
Matches(how, got, want) ==
    IF how = "exact" THEN got = want
    ELSE IF how = "bag" THEN Len(got) = Len(want) /\ Range(got) = Range(want)
    ELSE got # <<>> /\ Range(got) \subseteq Range(want) /\ \A j, k \in DOMAIN got : j # k => got[j] # got[k]
Judge(ev) ==
    LET l == After(ev) due == Due2(l) - n IN
    IF ev.st # "ok" THEN "raised " \o ev.st
    ELSE IF Len(ev.trained) < due THEN "nothing was learned although all inputs are complete"
    ELSE IF Len(ev.trained) > due THEN IF due = 0 THEN "learned before all inputs were complete" ELSE "learned more than once"
    ELSE IF \E k \in DOMAIN ev.trained : ~ev.trained[k].names THEN "the data is not under the names of the inputs"
    ELSE IF \E k \in DOMAIN ev.trained : \E i \in In : ~Matches(K.how[i], ev.trained[k].data[i], Want(i, n + k))
         THEN "learned from other data than its input delivered"
    ELSE IF K.aligned /\ \E k \in DOMAIN ev.trained : \E i \in In : \E j \in DOMAIN ev.trained[k].data[i] :
            ev.trained[k].data[i][j] % 100 # ev.trained[k].data[1][j] % 100
         THEN "samples of different inputs are not aligned"
    ELSE IF Len(ev.built) # due THEN "not exactly one pipeline was made"
    ELSE IF \E k \in DOMAIN ev.built : Len(ev.built[k]) # K.nparts THEN "the pipeline does not have all of its steps"
    ELSE IF \E k \in DOMAIN ev.built : \E p \in DOMAIN ev.built[k] : (n + k) \notin Range(ev.built[k][p])
         THEN "a step of the pipeline is not the one that was learned in its place"
    ELSE ""
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ left' = After(ev) /\ n' = n + Len(ev.trained)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED <<left, n>>
        /\ UNCHANGED <<Case, coll, queue, slots, trained, parts, built, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ IF \A i \in In : left[i] = -1 THEN PrintT("OK " \o ToString(c))
          ELSE PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " harness: an input did not end")
       /\ e' = e + 1 /\ UNCHANGED <<vars, c, n>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
