---------------------------- MODULE TrainingTrace ----------------------------
(* Each event is something that happened: a call to train began, a batch was  *)
(* trained, a callback was told, a callback came or went, the call returned   *)
(* (with what the monitor remembers), a web socket was read.  seen holds all  *)
(* batches, cur the current one, may whoever can be told of it.               *)
EXTENDS Training, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e, cur, may, wsure, wmay
tvars == <<vars, c, e, cur, may, wsure, wmay>>
K == Cases[c]
None == [ev |-> "none"]
Upper(a, b) == (a + b - 1) \div b
Held == (K.quarters * K.size) \div 4
NBatches == IF K.kind = "triplet" THEN K.size \div K.bs
            ELSE IF K.kind = "supervised" THEN Upper(K.size - Held, K.bs) ELSE Upper(K.size, K.bs)
Label(k) == IF K.kind = "triplet" THEN k ELSE k * K.bs
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ cur = None /\ may = {} /\ wsure = <<>> /\ wmay = <<>>
             /\ done = 0 /\ run = Idle /\ regs = <<>> /\ pend = <<>> /\ steady = {}
             /\ log = <<>> /\ sure = <<>> /\ seen = <<>> /\ history = <<>> /\ hist = <<>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Ids(a, b) == [k \in 1..(b - a) |-> a + k - 1]
Drawn(s) == Len(s) = K.bs /\ \A k \in DOMAIN s : s[k] \in 0..(K.size - 1)
Close(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] - b[k] \in -1..1
Stop == IF K.epochs < done + K.check THEN K.epochs ELSE done + K.check
At == <<run.epoch, run.batch>>
\* the position of the next batch: <<-1, -1>> when there is none
NextAt == IF run = Idle THEN <<-1, -1>>
          ELSE IF cur = None THEN At
          ELSE IF run.batch + 1 < run.nb THEN <<run.epoch, run.batch + 1>>
          ELSE IF run.epoch + 1 < run.stop THEN <<run.epoch + 1, 0>> ELSE <<-1, -1>>
Missed == IF cur = None THEN FALSE ELSE \E x \in steady : x \notin Range(pend) /\ x # "ws"
Content(ev, k) ==
    IF K.kind = "supervised" THEN
        LET a == Held + k * K.bs b == Least(K.size, a + K.bs) IN
        IF Len(ev.ids) # 1 THEN "not exactly one batch was trained with"
        ELSE IF ev.ids[1] # Ids(a, b) THEN "the batch is not the next one of the training data"
        ELSE IF ev.labs # ev.ids THEN "targets do not belong to their inputs"
        ELSE IF ev.grad # 2 * Sum(ev.ids[1]) THEN "the step was not taken for the error of this batch alone"
        ELSE IF Held = 0 /\ ev.test # <<>> THEN "tested without data for it"
        ELSE IF Held > 0 /\ Len(ev.test) # 1 THEN "not tested with a batch of the data held out"
        ELSE IF Held > 0 /\ (Len(ev.test[1]) # K.bs \/ \E j \in DOMAIN ev.test[1] : ev.test[1][j] \notin 0..(Held - 1))
             THEN "not tested with a batch of the data held out"
        ELSE IF ev.testlabs # ev.test THEN "targets do not belong to their inputs (testing)"
        ELSE IF ~Close(ev.vals, <<3 * Sum(ev.ids[1]), IF Held = 0 THEN -1 ELSE 3 * Sum(ev.test[1])>>) THEN "harness: the errors"
        ELSE ""
    ELSE IF K.kind = "triplet" THEN
        IF Len(ev.ids) # 3 THEN "not exactly one triple of anchors, positives and negatives"
        ELSE IF \E j \in 1..3 : ~Drawn(ev.ids[j]) THEN "examples are not a batch of the training data"
        ELSE IF ev.ids[1] # ev.ids[2] THEN "positive examples are not those of their anchors"
        ELSE ""
    ELSE IF K.kind = "wgan" THEN
        IF Len(ev.ids) # K.critic THEN "the critic did not see its number of batches of real examples"
        ELSE IF \E j \in DOMAIN ev.ids : ~Drawn(ev.ids[j]) THEN "examples are not a batch of the training data"
        ELSE IF ev.grad # K.critic THEN "the critic did not learn once from each of its batches"
        ELSE ""
    ELSE ""
MayNow == IF cur # None /\ "ws" \in may /\ Label(run.batch) % K.freq = 0
          THEN Append(wmay, [at |-> <<run.epoch, Label(run.batch)>>, vals |-> cur.vals]) ELSE wmay
\* what the monitor remembers of the n-th value
Kept(n) == Lasts([k \in DOMAIN history |-> history[k][n]], K.points)
Judge(ev) ==
    IF ev.st # "ok" THEN "raised " \o ev.st
    ELSE IF ev.ev = "call" THEN IF run # Idle THEN "harness: still training" ELSE ""
    ELSE IF ev.ev = "batch" THEN
        IF NextAt = <<-1, -1>> THEN "trained when all epochs of this call were over"
        ELSE IF Missed THEN "a callback was not told of a batch"
        ELSE IF ev.wrong # "" THEN ev.wrong
        ELSE IF ev.steps # 1 THEN "not exactly one step was taken"
        ELSE Content(ev, NextAt[2])
    ELSE IF ev.ev = "told" THEN
        IF cur = None THEN "told of a batch that was not trained"
        ELSE IF ev.x \in Range(pend) THEN "a callback was told twice of a batch"
        ELSE IF ev.x \notin may THEN "told although not registered"
        ELSE IF ev.n # run.epoch THEN "told the wrong epoch"
        ELSE IF ev.b # Label(run.batch) THEN "told the wrong batch number"
        ELSE IF ~Close(ev.vals, cur.vals) THEN "told other values than those of this batch"
        ELSE ""
    ELSE IF ev.ev = "ret" THEN
        IF Missed THEN "a callback was not told of a batch"
        ELSE IF NextAt # <<-1, -1>> THEN "returned before all epochs of this call were over"
        ELSE IF ev.wrong # "" THEN ev.wrong
        ELSE IF K.mon /\ \E n \in DOMAIN ev.hist : ~Close(ev.hist[n], Kept(n)) THEN "the training history is not that of the last batches in order"
        ELSE ""
    ELSE IF ev.ev = "fail" THEN
        IF run = Idle THEN "trained when all epochs of this call were over"
        ELSE IF ev.wrong # "" THEN ev.wrong ELSE ""
    ELSE IF ev.ev = "ws" THEN
        IF \E k \in DOMAIN wsure : \A j \in DOMAIN ev.got : ev.got[j][1] # wsure[k].at \/ ~Close(ev.got[j][2], wsure[k].vals) THEN "the web socket missed a batch"
        ELSE IF \E j \in DOMAIN ev.got : \A k \in DOMAIN MayNow : ev.got[j][1] # MayNow[k].at \/ ~Close(ev.got[j][2], MayNow[k].vals) THEN "the web socket was told something else"
        ELSE IF \E j, k \in DOMAIN ev.got : j < k /\ ~Before(ev.got[j][1], ev.got[k][1]) THEN "the web socket was told twice or out of order"
        ELSE ""
    ELSE ""
\* a batch is over: remember it for the web socket if it was there all the time
Ends == /\ wsure' = IF cur # None /\ "ws" \in steady /\ Label(run.batch) % K.freq = 0
                    THEN Append(wsure, [at |-> <<run.epoch, Label(run.batch)>>, vals |-> cur.vals]) ELSE wsure
        /\ wmay' = MayNow
Do(ev) ==
    IF ev.ev = "call" THEN
        /\ IF NBatches = 0 \/ done >= Stop THEN run' = Idle /\ done' = Stop
           ELSE run' = [stop |-> Stop, nb |-> NBatches, epoch |-> done, batch |-> 0] /\ UNCHANGED done
        /\ UNCHANGED <<regs, pend, steady, cur, may, history, wsure, wmay>>
    ELSE IF ev.ev = "batch" THEN
        LET p == NextAt IN
        /\ run' = [run EXCEPT !.epoch = p[1], !.batch = p[2]]
        /\ done' = p[1]
        /\ cur' = ev /\ pend' = <<>> /\ steady' = Range(regs) /\ may' = Range(regs)
        /\ history' = IF Label(p[2]) % K.freq = 0 THEN Append(history, ev.vals) ELSE history
        /\ Ends /\ UNCHANGED <<regs>>
    ELSE IF ev.ev = "told" THEN pend' = Append(pend, ev.x) /\ UNCHANGED <<done, run, regs, steady, cur, may, history, wsure, wmay>>
    ELSE IF ev.ev = "reg" THEN
        /\ regs' = IF ev.x \in Range(regs) THEN regs ELSE Append(regs, ev.x)
        /\ may' = may \union {ev.x}
        /\ UNCHANGED <<done, run, pend, steady, cur, history, wsure, wmay>>
    ELSE IF ev.ev = "unreg" THEN
        /\ regs' = Without(regs, ev.x) /\ steady' = steady \ {ev.x}
        /\ UNCHANGED <<done, run, pend, cur, may, history, wsure, wmay>>
    ELSE IF ev.ev = "fail" THEN
        \* what is wrong with a batch ends the call, and its epoch is still to be trained
        /\ LET p == NextAt IN done' = IF ev.x = "step" /\ p # <<-1, -1>> THEN p[1] ELSE run.epoch
        /\ run' = Idle /\ cur' = None /\ pend' = <<>> /\ steady' = {} /\ may' = {}
        /\ IF cur # None /\ ev.x = "callback"
           THEN /\ wsure' = wsure
                /\ wmay' = MayNow
           ELSE Ends
        /\ UNCHANGED <<regs, history>>
    ELSE IF ev.ev = "ret" THEN
        /\ done' = IF run = Idle THEN done ELSE run.stop
        /\ run' = Idle /\ cur' = None /\ pend' = <<>> /\ steady' = {} /\ may' = {} /\ Ends
        /\ UNCHANGED <<regs, history>>
    ELSE /\ wsure' = <<>> /\ wmay' = <<>>
         /\ UNCHANGED <<done, run, regs, pend, steady, cur, may, history>>
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN e' = e + 1 /\ Do(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
                 /\ UNCHANGED <<done, run, regs, pend, steady, cur, may, history, wsure, wmay>>
        /\ UNCHANGED <<log, sure, seen, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c, cur, may, wsure, wmay>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
