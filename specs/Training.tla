------------------------------ MODULE Training ------------------------------
(* C21.  A trainer is called again and again; each call goes on for at most   *)
(* Check epochs, and all calls together for at most Epochs.  After every      *)
(* batch the callbacks that are registered are told, one after the other,     *)
(* while callbacks may come and go at any time.  A monitor keeps the last     *)
(* Points of the batches it is told of, every Freq-th only.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Epochs, Check, Batches, Cbs, Points, Freq, Depth
VARIABLES done,   \* epochs completed
          run,    \* the call under way: [stop, nb, epoch, batch], or idle
          regs,   \* registered callbacks, in order
          pend,   \* callbacks still to be told of this batch
          steady, \* callbacks registered since before this batch was over
          log,    \* what every callback was told
          sure,   \* what every callback had to be told
          seen,   \* all batches, in order
          history,\* of the monitor
          hist
vars == <<done, run, regs, pend, steady, log, sure, seen, history, hist>>
Idle == [stop |-> -1, nb |-> 0, epoch |-> 0, batch |-> 0]
Least(a, b) == IF a < b THEN a ELSE b
Range(s) == {s[k] : k \in DOMAIN s}
Lasts(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Init == /\ done = 0 /\ run = Idle /\ regs = <<>> /\ pend = <<>> /\ steady = {}
        /\ log = [x \in Cbs |-> <<>>] /\ sure = [x \in Cbs |-> <<>>] /\ seen = <<>> /\ history = <<>> /\ hist = <<>>
Call == /\ Len(hist) < Depth
        /\ run = Idle
        /\ \E nb \in Batches :
             /\ hist' = Append(hist, [op |-> "train", n |-> nb, cb |-> "", at |-> ""])
             /\ LET stop == Least(Epochs, done + Check) IN
                  IF nb = 0 THEN done' = stop /\ UNCHANGED run
                  ELSE IF done >= stop THEN UNCHANGED <<done, run>>
                  ELSE run' = [stop |-> stop, nb |-> nb, epoch |-> done, batch |-> 0] /\ UNCHANGED done
        /\ UNCHANGED <<regs, pend, steady, log, sure, seen, history>>
\* a batch of training; then everybody registered now is to be told
Trained == IF seen = <<>> THEN FALSE ELSE seen[Len(seen)] = <<run.epoch, run.batch>>
Batch == /\ run # Idle /\ pend = <<>> /\ ~Trained
         /\ seen' = Append(seen, <<run.epoch, run.batch>>)
         /\ pend' = regs /\ steady' = Range(regs)
         /\ history' = IF run.batch % Freq = 0 THEN Lasts(Append(history, <<run.epoch, run.batch>>), Points) ELSE history
         /\ UNCHANGED <<done, run, regs, log, sure, hist>>
\* one that has meanwhile gone may be left out
Tell == /\ pend # <<>>
        /\ LET x == Head(pend) IN
             \/ log' = [log EXCEPT ![x] = Append(@, <<run.epoch, run.batch>>)]
             \/ x \notin Range(regs) /\ UNCHANGED log
        /\ pend' = Tail(pend)
        /\ UNCHANGED <<done, run, regs, steady, sure, seen, history, hist>>
After == /\ run # Idle /\ pend = <<>> /\ Trained
         /\ sure' = [x \in Cbs |-> IF x \in steady \intersect Range(regs) THEN Append(sure[x], <<run.epoch, run.batch>>) ELSE sure[x]]
         /\ IF run.batch + 1 < run.nb THEN run' = [run EXCEPT !.batch = @ + 1] /\ UNCHANGED done
            ELSE /\ done' = run.epoch + 1
                 /\ run' = IF run.epoch + 1 < run.stop THEN [run EXCEPT !.epoch = @ + 1, !.batch = 0] ELSE Idle
         /\ steady' = {}
         /\ UNCHANGED <<regs, pend, log, seen, history, hist>>
Where == IF run = Idle THEN "between" ELSE IF Trained THEN "dispatch" ELSE "step"
Register == /\ Len(hist) < Depth
            /\ \E x \in Cbs : /\ regs' = IF x \in Range(regs) THEN regs ELSE Append(regs, x)
                              /\ hist' = Append(hist, [op |-> "reg", n |-> Len(seen), cb |-> x, at |-> Where])
            /\ UNCHANGED <<done, run, pend, steady, log, sure, seen, history>>
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Unregister == /\ Len(hist) < Depth
              /\ \E x \in Cbs : /\ regs' = Without(regs, x) /\ steady' = steady \ {x}
                                /\ hist' = Append(hist, [op |-> "unreg", n |-> Len(seen), cb |-> x, at |-> Where])
              /\ UNCHANGED <<done, run, pend, log, sure, seen, history>>
Next == Call \/ Batch \/ Tell \/ After \/ Register \/ Unregister
Spec == Init /\ [][Next]_vars /\ WF_vars(Batch \/ Tell \/ After)
MCView == <<done, run, regs, pend, steady, log, sure, seen, history, Len(hist)>>
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Increasing(s) == \A k \in 1..(Len(s) - 1) : Before(s[k], s[k + 1])
\* epochs come one after the other, every one at most once, never more than there are to be
EpochsInOrder == /\ done <= Epochs /\ Increasing(seen) /\ \A k \in DOMAIN seen : seen[k][1] < Epochs
                 /\ \A k \in 1..(Len(seen) - 1) : seen[k + 1][1] > seen[k][1] => seen[k + 1][2] = 0
\* nobody is told twice or out of order, and nobody misses what they were there for
ToldOnce == \A x \in Cbs : /\ Increasing(log[x]) /\ Range(log[x]) \subseteq Range(seen)
                           /\ (run = Idle => Range(sure[x]) \subseteq Range(log[x]))
Recorded == SelectSeq(seen, LAMBDA p : p[2] % Freq = 0)
Bounded == /\ Len(history) <= Points /\ history = Lasts(Recorded, Points)
Finishes == (run # Idle) ~> (run = Idle)
Emit == (Len(hist) = Depth /\ run = Idle) => PrintT("GEN " \o ToJson(hist))
=============================================================================
