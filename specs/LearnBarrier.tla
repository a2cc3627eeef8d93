---------------------------- MODULE LearnBarrier ----------------------------
(* C20.  Learning from several inputs.  Each input delivers chunks and ends;  *)
(* either its samples are collected, and handed on once it has ended, or (in  *)
(* a stream) every input delivers one chunk per round, which is handed on at  *)
(* once.  Steps work on what one input hands on; a learner waits for all of   *)
(* its inputs; the pipeline waits for all of its parts.  All messages between *)
(* nodes go through one queue.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NInputs, MaxChunks, MaxSize, MaxSteps
Inputs == 1..NInputs
VARIABLES streaming, steps, sizes,   \* the case: how chunks are handed on, steps per input, sizes of the chunks
          left,     \* chunks still to come, per input (-1: ended)
          coll,     \* collected samples, per input
          queue,    \* messages [to, from, at, data]
          slots,    \* the learner's inputs
          trained,  \* what the learner was trained with
          parts,    \* the pipeline's parts
          built,    \* pipelines made
          hist
vars == <<streaming, steps, sizes, left, coll, queue, slots, trained, parts, built, hist>>
None == <<>>
Chunk(i, k) == [j \in 1..sizes[i][k] |-> 100 * i + 10 * k + j]
RECURSIVE Upto(_, _)
Upto(i, k) == IF k = 0 THEN <<>> ELSE Upto(i, k - 1) \o Chunk(i, k)
All(i) == Upto(i, Len(sizes[i]))
SizeSeqs == UNION {[1..n -> 1..MaxSize] : n \in 0..MaxChunks}
Init == /\ streaming \in BOOLEAN /\ steps \in [Inputs -> 0..MaxSteps]
        /\ sizes \in [Inputs -> SizeSeqs]
        /\ (streaming => \A i, j \in Inputs : Len(sizes[i]) = Len(sizes[j]))
        /\ left = [i \in Inputs |-> Len(sizes[i])]
        /\ coll = [i \in Inputs |-> <<>>]
        /\ queue = <<>> /\ slots = [i \in Inputs |-> None] /\ trained = <<>>
        /\ parts = [p \in 0..NInputs |-> None] /\ built = <<>> /\ hist = <<>>
Case == <<streaming, steps, sizes>>
HandOn(i, data) == [to |-> IF steps[i] = 0 THEN "learn" ELSE "step", from |-> i, at |-> 1, data |-> data]
\* rounds do not overlap
Due(i) == ~streaming \/ \A j \in Inputs : left[i] >= left[j]
Deliver == /\ queue = <<>>
           /\ \E i \in Inputs :
                /\ left[i] > 0 /\ Due(i)
                /\ LET ch == Chunk(i, Len(sizes[i]) - left[i] + 1) IN
                     IF streaming THEN queue' = <<HandOn(i, ch)>> /\ UNCHANGED coll
                     ELSE coll' = [coll EXCEPT ![i] = @ \o ch] /\ UNCHANGED queue
                /\ left' = [left EXCEPT ![i] = @ - 1]
                /\ hist' = Append(hist, i)
           /\ UNCHANGED <<Case, slots, trained, parts, built>>
\* an input that never delivered anything hands on nothing
End == /\ queue = <<>>
       /\ \E i \in Inputs :
            /\ left[i] = 0 /\ left' = [left EXCEPT ![i] = -1]
            /\ queue' = IF coll[i] = <<>> THEN queue ELSE <<HandOn(i, coll[i])>>
            /\ hist' = Append(hist, i)
       /\ UNCHANGED <<Case, coll, slots, trained, parts, built>>
Msg == Head(queue)
Step == /\ queue # <<>> /\ Msg.to = "step"
        /\ queue' = Append(Tail(queue), [Msg EXCEPT !.to = IF Msg.at < steps[Msg.from] THEN "step" ELSE "learn", !.at = @ + 1])
        /\ parts' = IF Msg.at = steps[Msg.from] THEN [parts EXCEPT ![Msg.from] = <<Msg.data>>] ELSE parts
        /\ UNCHANGED <<Case, left, coll, slots, trained, built, hist>>
Learn == /\ queue # <<>> /\ Msg.to = "learn"
         /\ LET filled == [slots EXCEPT ![Msg.from] = <<Msg.data>>] IN
              IF \A i \in Inputs : filled[i] # None
              THEN /\ trained' = Append(trained, [i \in Inputs |-> filled[i][1]])
                   /\ slots' = [i \in Inputs |-> None]
                   /\ queue' = Append(Tail(queue), [to |-> "pipe", from |-> 0, at |-> 0, data |-> <<>>])
              ELSE slots' = filled /\ queue' = Tail(queue) /\ UNCHANGED trained
         /\ UNCHANGED <<Case, left, coll, parts, built, hist>>
Parts == {0} \union {i \in Inputs : steps[i] > 0}
Pipe == /\ queue # <<>> /\ Msg.to = "pipe"
        /\ LET filled == [parts EXCEPT ![0] = <<Msg.data>>] IN
             IF \A p \in Parts : filled[p] # None
             THEN built' = Append(built, filled) /\ parts' = [p \in 0..NInputs |-> None]
             ELSE parts' = filled /\ UNCHANGED built
        /\ queue' = Tail(queue)
        /\ UNCHANGED <<Case, left, coll, slots, trained, hist>>
Next == Deliver \/ End \/ Step \/ Learn \/ Pipe
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
MCView == <<Case, left, coll, queue, slots, trained, parts, built>>
Ended == \A i \in Inputs : left[i] = -1
Rest == Ended /\ queue = <<>>
\* chunks of input i that were delivered
Got(i) == IF left[i] = -1 THEN Len(sizes[i]) ELSE Len(sizes[i]) - left[i]
\* what the learner must have been trained with by now, at most
Expected == IF streaming THEN [k \in 1..Len(trained) |-> [i \in Inputs |-> Chunk(i, k)]]
            ELSE [k \in 1..Len(trained) |-> [i \in Inputs |-> All(i)]]
Trains == IF streaming THEN Len(sizes[1]) ELSE IF \A i \in Inputs : sizes[i] # <<>> THEN 1 ELSE 0
\* complete data, in order of arrival, under the name of its input
Complete == trained = Expected
\* never early: not before all inputs of the round are there
NotEarly == /\ Len(trained) <= Trains /\ Len(built) <= Len(trained)
            /\ (trained # <<>> => IF streaming THEN \A i \in Inputs : Got(i) >= Len(trained) ELSE Ended)
\* pipelines hold the parts of one round only
OneRound == \A k \in DOMAIN built : \A i \in Inputs : steps[i] > 0 => built[k][i] = <<trained[k][i]>>
AtTheEnd == Rest => Len(trained) = Trains /\ Len(built) = Trains
Terminates == <>Rest
Emit == Rest => PrintT("GEN " \o ToJson([streaming |-> streaming, steps |-> steps, sizes |-> sizes, schedule |-> hist]))
=============================================================================
