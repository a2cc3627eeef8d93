------------------------ MODULE EndlessLearningTrace ------------------------
(* Recorded runs of real endless pipelines against EndlessLearning.          *)
EXTENDS EndlessLearning, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ docs = <<>> /\ keep = K.keep /\ cap = K.cap
             /\ phase = -1 /\ known = <<>> /\ pool = {} /\ run = 0 /\ round = 0
             /\ work = <<>> /\ stored = Nothing /\ hist = <<>>
Count(rows, d) == Cardinality({i \in DOMAIN rows : rows[i][1] = d})
Part(ds, k) == [i \in DOMAIN ds |-> Min(ds[i], k)]
\* with samples in plenty, all rows are among them and every document has its share
Unfair(rows, ds, k) ==
    LET P == Part(ds, k) total == Sum(P) n == Len(rows) IN
    /\ cap >= 50 * total
    /\ \/ 2 * n < cap
       \/ \E r \in Allowed(ds, k) : r \notin SetOf(rows)
       \/ \E d \in DOMAIN P : P[d] > 0 /\ (2 * total * Count(rows, d) < n * P[d] \/ total * Count(rows, d) > 2 * n * P[d])
Tag == 10 * run + round
Judge(ev) ==
    IF ev.op = "class" THEN IF (ev.st = "ok") # (ev.n = 1) THEN "a class with " \o ToString(ev.n) \o " roots: " \o ev.st
                            ELSE IF ~ev.ok THEN "the class has another name" ELSE ""
    ELSE IF ev.op = "doc" THEN IF ev.st = "ok" THEN "" ELSE "a document could not be added"
    ELSE IF ev.op = "begin" THEN IF Idle THEN "" ELSE "a run begins in another one"
    ELSE IF ev.op = "bad" THEN IF ev.st # "ValueError" THEN "a number of samples that is none was taken" ELSE ""
    ELSE IF ev.op = "draw" THEN IF phase \notin {0, 2} THEN "samples are drawn before the last ones were learned from" ELSE ""
    ELSE IF ev.op = "train" THEN
         IF phase # 1 THEN "learned other than once in a round"
         ELSE IF ~ev.ok THEN "what was learned from are no rows, as the steps before make them, or of another type"
         ELSE IF ~(SetOf(ev.rows) \subseteq Allowed(known, keep)) THEN "learned from rows that weren't to be learned from"
         ELSE IF ev.rows = <<>> THEN "learned from nothing"
         ELSE IF Len(ev.rows) > cap THEN "learned from more samples than asked for"
         ELSE IF Len(ev.rows) < Cardinality(pool) THEN "samples got lost"
         ELSE IF Unfair(ev.rows, known, keep) THEN "not a fair choice of samples"
         ELSE ""
    ELSE IF ev.op = "late" THEN IF phase # 2 THEN "the step after comes too early" ELSE IF ~ev.ok THEN "the step after gets something else" ELSE ""
    ELSE IF ev.op = "end" THEN
         IF Idle THEN "nothing to end" ELSE IF ev.st # ev.want THEN "the run ends with " \o ev.st \o " instead of " \o ev.want ELSE ""
    ELSE IF ev.op = "samples" THEN
         IF ev.st # "ok" \/ ~ev.ok THEN "drawing samples failed"
         ELSE IF ~(SetOf(ev.rows) \subseteq {<<1, i>> : i \in 1..ev.n}) THEN "samples of something else"
         ELSE IF Len(ev.rows) > ev.tag THEN "more samples than asked for"
         ELSE IF ev.rows = <<>> THEN "no samples"
         ELSE IF ev.tag >= 50 * ev.n /\ Cardinality(SetOf(ev.rows)) < ev.n THEN "some have no chance" ELSE ""
    ELSE \* look
         IF stored = Torn THEN ""
         ELSE IF stored = Nothing THEN IF ev.st # "none" \/ ev.there THEN "there is a pipeline before the first run" ELSE ""
         ELSE IF ~ev.there THEN "the pipeline is gone"
         ELSE IF ev.late # 10 * stored[1] + stored[2] THEN "not the pipeline of the last round that was finished"
         ELSE IF K.net /\ (ev.st # "ok" \/ ev.tag # 10 * stored[1] + stored[2]) THEN "not the network of the last round that was finished"
         ELSE IF ~K.net /\ ev.st # "none" THEN "there is a network in a pipeline without one"
         ELSE IF ~ev.ok THEN "the stored pipeline does not do what its steps do" ELSE ""
Turns == K.all => UNION {SetOf(K.events[i].rows) : i \in DOMAIN K.events} = Allowed(docs, keep)
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN
                /\ e' = e + 1
                /\ docs' = IF ev.op = "doc" THEN Append(docs, ev.n) ELSE docs
                /\ IF ev.op = "begin" THEN phase' = 0 /\ known' = docs /\ pool' = {} /\ run' = run + 1 /\ round' = 0 /\ stored' = Torn
                   ELSE IF ev.op = "draw" THEN
                        /\ phase' = 1 /\ UNCHANGED <<known, pool, run>>
                        /\ IF phase = 2 THEN round' = round + 1 /\ stored' = <<run, round + 1>> ELSE UNCHANGED <<round, stored>>
                   ELSE IF ev.op = "train" THEN phase' = 2 /\ pool' = DOMAIN ev.rows /\ UNCHANGED <<known, run, round, stored>>
                   ELSE IF ev.op = "end" THEN phase' = -1 /\ UNCHANGED <<known, pool, run, round, stored>>
                   ELSE UNCHANGED <<phase, known, pool, run, round, stored>>
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
                 /\ UNCHANGED <<docs, phase, known, pool, run, round, stored>>
        /\ UNCHANGED <<keep, cap, work, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ IF Turns THEN PrintT("OK " \o ToString(c))
          ELSE PrintT("BAD " \o ToString(c) \o " " \o ToString(Len(K.events)) \o " some rows never have their turn")
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
