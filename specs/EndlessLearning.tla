--------------------------- MODULE EndlessLearning ---------------------------
(* C39.  Learning that goes on until it is interrupted.  A run draws samples  *)
(* of the rows of all documents over and over again; in every round the steps *)
(* of the pipeline learn from them, one after another, and once the last one  *)
(* has finished, the whole pipeline takes the place of the one before.        *)
(* Whatever ends the run, and whenever, the last complete pipeline is there.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Keeps, Caps, Steps, MaxDocs, MaxRounds, Depth
VARIABLES docs,   \* number of rows of every document
          keep,   \* the filter lets the first ones of each document through
          cap,    \* the number of samples to draw
          phase,  \* "idle", "sampling" or the number of steps that have learned in this round
          known,  \* the documents there were when the run began
          pool,   \* the samples drawn
          run, round,
          work,   \* what each of the steps has learned from, in this round
          stored, \* the pipeline that is there: <<run, round, what each step learned from>>
          hist
vars == <<docs, keep, cap, phase, known, pool, run, round, work, stored, hist>>
Min(a, b) == IF a < b THEN a ELSE b
Nothing == <<>>
Torn == <<-1>>    \* a run that has begun, and not finished a round so far, says nothing
\* the rows that may be learned from
Allowed(ds, k) == UNION {{<<d, i>> : i \in 1..Min(ds[d], k)} : d \in DOMAIN ds}
Init == /\ docs \in [1..2 -> Sizes] /\ keep \in Keeps /\ cap \in Caps
        /\ phase = -1 /\ known = <<>> /\ pool = {} /\ run = 0 /\ round = 0
        /\ work = <<>> /\ stored = Nothing /\ hist = <<>>
Idle == phase = -1
Note(op) == Len(hist) < Depth /\ hist' = Append(hist, op)
Case == <<keep, cap>>
\* documents may arrive at any time, those that arrive during a run are for the next one
Arrive == /\ Len(docs) < MaxDocs /\ Note("doc")
          /\ \E s \in Sizes : docs' = Append(docs, s)
          /\ UNCHANGED <<Case, phase, known, pool, run, round, work, stored>>
Begin == /\ Idle /\ Note("begin")
         /\ phase' = 0 /\ known' = docs /\ pool' = {} /\ run' = run + 1 /\ round' = 0
         /\ work' = <<>> /\ stored' = Torn
         /\ UNCHANGED <<docs, Case>>
\* new samples may take the place of others
Sample == /\ phase = 0 /\ work = <<>> /\ Note("sample")
          /\ \E p \in SUBSET Allowed(known, keep) :
                /\ p # {} /\ Cardinality(p) <= cap /\ Cardinality(p) >= Cardinality(pool)
                /\ pool' = p /\ work' = <<p>>
          /\ phase' = 1
          /\ UNCHANGED <<docs, Case, known, run, round, stored>>
\* every step learns from what the one before makes of the samples
Learn == /\ phase \in 1..Steps /\ Note("learn")
         /\ work' = Append(work, work[1]) /\ phase' = phase + 1
         /\ UNCHANGED <<docs, Case, known, pool, run, round, stored>>
Store == /\ phase = Steps + 1 /\ round < MaxRounds /\ Note("store")
         /\ round' = round + 1 /\ stored' = <<run, round + 1, Tail(work)>>
         /\ work' = <<>> /\ phase' = 0
         /\ UNCHANGED <<docs, Case, known, pool, run>>
Stop(why) == /\ ~Idle /\ Note(why)
             /\ phase' = -1 /\ work' = <<>>
             /\ UNCHANGED <<docs, Case, known, pool, run, round, stored>>
Look == /\ Note("look")
        /\ UNCHANGED <<docs, Case, phase, known, pool, run, round, work, stored>>
Next == Arrive \/ Begin \/ Sample \/ Learn \/ Store \/ Look \/ \E w \in {"error", "interrupt", "kill"} : Stop(w)
Spec == Init /\ [][Next]_vars
MCView == <<docs, keep, cap, phase, known, pool, run, round, work, stored, Len(hist)>>
\* what is there is a whole pipeline, of the last round that was finished
Whole == \/ stored = Nothing /\ run = 0
         \/ stored = Torn /\ round = 0
         \/ stored[1] = run /\ stored[2] = round /\ round > 0 /\ Len(stored[3]) = Steps
OneRound == stored \notin {Nothing, Torn} =>
               \A i \in 1..Steps : stored[3][i] = stored[3][1] /\ stored[3][i] \subseteq Allowed(known, keep) /\ stored[3][i] # {}
\* a finished round is only ever replaced by the next one, or a new run
Kept == [][stored \notin {Nothing, Torn} /\ stored' # stored =>
             \/ run' = run + 1
             \/ run' = run /\ stored'[2] = stored[2] + 1]_vars
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
