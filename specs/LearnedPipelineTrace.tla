------------------------ MODULE LearnedPipelineTrace ------------------------
EXTENDS LearnedPipeline, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e, memo
tvars == <<vars, c, e, memo>>
Case == Cases[c]
Scale == 4096
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ memo = {} /\ runs = {} /\ hist = <<>>
             /\ steps = Train(Cases[c].steps, Cases[c].train, Cases[c].shape)
Sub_(part) == [i \in DOMAIN part |-> steps[part[i]]]
ShapeOf(ev) == ev.shape
Near(o, q, tol) == LET d == o * q[2] - q[1] * Scale IN Abs(d) <= tol * q[2]
NearRow(o, row, tol) == Len(o) = Len(row) /\ \A j \in DOMAIN row : Near(o[j], row[j], tol)
Opaque(part) == steps[part[Len(part)]].k = "opaque"
\* the last step is a function of what goes into it, whatever that function is
Before(ev, i) == Run(Sub_(SubSeq(ev.part, 1, Len(ev.part) - 1)), ev.rows[i], ev.shape)
RunOf(id) == CHOOSE r \in runs : r.id = id
Judge(ev) ==
    IF ev.st = "hang" THEN "an operation never ended"
    ELSE IF ev.op = "run" THEN
        IF ev.st # "ok" THEN "running data through the pipeline raised " \o ev.st
        ELSE IF Len(ev.part) # 0 /\ Opaque(ev.part) THEN
            IF Len(ev.tokens) # Len(ev.rows) THEN "the number of rows changed"
            ELSE IF \E i \in DOMAIN ev.rows : \E m \in memo : m[1] = ev.part[Len(ev.part)] /\ m[2] = Before(ev, i) /\ m[3] # ev.tokens[i]
                 THEN "the same row was transformed differently before"
            ELSE ""
        ELSE IF Len(ev.out) # Len(ev.rows) THEN "the number of rows changed"
        ELSE IF ev.oshape # LastOf(Shapes(Sub_(ev.part), ev.shape)) THEN "the rows have the wrong shape"
        ELSE IF \E i \in DOMAIN ev.rows : ~ NearRow(ev.out[i], Run(Sub_(ev.part), ev.rows[i], ev.shape), ev.tol)
             THEN "the result is not what the steps make of the data, in order"
        ELSE ""
    ELSE IF ev.op = "undo" THEN
        LET r == RunOf(ev.id) st == Sub_(r.part) IN
        IF \E i \in DOMAIN st : st[i].k \in OneWay THEN
            (IF ev.st = "NotImplementedError" THEN "" ELSE "undoing a step that has no inverse did not raise NotImplementedError")
        ELSE IF ev.st # "ok" THEN "undoing a run raised " \o ev.st
        ELSE IF Len(ev.out) # Len(r.rows) THEN "the number of rows was not restored"
        ELSE IF ev.oshape # r.shape THEN "the shape was not restored"
        ELSE IF \E i \in DOMAIN r.rows : ~ NearRow(ev.out[i], Restored(st, r.rows[i], r.shape), ev.tol)
             THEN "undoing a run does not restore its input"
        ELSE IF ~ ev.kept THEN "the kind of array or its axes were not restored"
        ELSE IF ev.err > ev.fine /\ \A i \in DOMAIN st : ~ Lossy(st[i], LastOf(Shapes(st, r.shape)[i])) THEN "undoing a run does not restore its input exactly"
        ELSE ""
    ELSE IF ev.op = "same" THEN (IF ev.a = ev.b THEN "" ELSE ev.what \o " changed")
    ELSE IF ev.op = "nearest" THEN
        IF ev.st # "ok" THEN "undoing a run raised " \o ev.st
        ELSE LET D(a, b) == LET F[j \in 0..Len(a)] == IF j = 0 THEN 0 ELSE F[j - 1] + (a[j] - b[j]) * (a[j] - b[j]) IN F[Len(a)] IN
             IF \E i \in DOMAIN ev.rws : ev.out[i] \notin {ev.centers[n] : n \in DOMAIN ev.centers} THEN "a row is not restored to a centroid"
             ELSE IF \E i \in DOMAIN ev.rws : \E n \in DOMAIN ev.centers : D(ev.rws[i], ev.centers[n]) < D(ev.rws[i], ev.out[i])
             THEN "a row is not restored to the nearest centroid" ELSE ""
    ELSE IF ev.op = "train" THEN (IF ev.st = "ok" THEN "" ELSE "learning raised " \o ev.st)
    ELSE "harness: unknown event"
Step == /\ e <= Len(Case.ops)
        /\ LET ev == Case.ops[e] m == Judge(ev) IN
            IF m = "" THEN
                /\ e' = e + 1
                /\ runs' = IF ev.op = "run" THEN runs \cup {[id |-> ev.id, part |-> ev.part, rows |-> ev.rows, shape |-> ev.shape]} ELSE runs
                /\ memo' = IF ev.op = "run" /\ ev.part # <<>> THEN
                              (IF Opaque(ev.part) THEN memo \cup {<<ev.part[Len(ev.part)], Before(ev, i), ev.tokens[i]>> : i \in DOMAIN ev.rows} ELSE memo)
                           ELSE memo
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(Case.ops) + 2 /\ UNCHANGED <<runs, memo>>
        /\ UNCHANGED <<steps, hist, c>>
Done == /\ e = Len(Case.ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ e' = e + 1 /\ UNCHANGED <<vars, c, memo>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
