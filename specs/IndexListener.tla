---------------------------- MODULE IndexListener ----------------------------
(* C16.  Documents are processed (each announced in an event log and to the   *)
(* channels of those listening at the time); instances of an index read the   *)
(* log from where the index last was, then their channel, and store all       *)
(* frames of a document, the mark that it is indexed and the time of the      *)
(* event at once.  Instances may be interrupted anywhere.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Docs, Insts, MaxEvents, Depth
Frames(d) == 1 + (d % 2)
VARIABLES log,      \* sequence of documents announced
          entries,  \* entries <<d, f>> -> how often they are in the index
          marks,    \* documents marked as indexed
          stamp,    \* number of the last event handled (in the index)
          inst,     \* instances: [st, at, chan, todo, got]
          done,     \* documents which must be in the index
          hist
vars == <<log, entries, marks, stamp, inst, done, hist>>
Off == [st |-> "off", at |-> 0, upto |-> 0, chan |-> <<>>, cur |-> 0]
All == {<<d, f>> : d \in Docs, f \in 1..2}
IndexInit == /\ log = <<>> /\ entries = [x \in All |-> 0] /\ marks = {} /\ stamp = 0
             /\ inst = [i \in Insts |-> Off] /\ done = {} /\ hist = <<>>
\* a document is processed, perhaps again
Announce(d) == /\ Len(log) < MaxEvents
               /\ log' = Append(log, d)
               /\ inst' = [i \in Insts |-> IF inst[i].st = "off" THEN inst[i]
                                           ELSE [inst[i] EXCEPT !.chan = Append(@, Len(log) + 1)]]
               /\ UNCHANGED <<entries, marks, stamp, done>>
\* first the channel is subscribed to, then the log is read as it is
Start(i) == /\ inst[i].st = "off"
            /\ inst' = [inst EXCEPT ![i] = [Off EXCEPT !.st = "sub", !.at = stamp]]
            /\ UNCHANGED <<log, entries, marks, stamp, done>>
Snapshot(i) == /\ inst[i].st = "sub"
               /\ inst' = [inst EXCEPT ![i].st = "read", ![i].upto = Len(log)]
               /\ UNCHANGED <<log, entries, marks, stamp, done>>
Next1(i) == /\ inst[i].st = "read"
            /\ inst' = IF inst[i].at < inst[i].upto
                       THEN [inst EXCEPT ![i].at = @ + 1, ![i].cur = inst[i].at + 1, ![i].st = "collect"]
                       ELSE IF inst[i].chan # <<>>
                       THEN [inst EXCEPT ![i].cur = Head(inst[i].chan), ![i].chan = SubSeq(@, 2, Len(@)), ![i].st = "collect"]
                       ELSE [inst EXCEPT ![i] = Off]
            /\ done' = IF inst[i].at >= inst[i].upto /\ inst[i].chan = <<>>
                       THEN done \cup {log[k] : k \in 1..inst[i].upto} ELSE done
            /\ UNCHANGED <<log, entries, marks, stamp>>
\* one transaction
Commit(i) == /\ inst[i].st = "collect"
             /\ LET d == log[inst[i].cur] IN
                /\ entries' = IF d \in marks THEN entries
                              ELSE [x \in All |-> IF x[1] = d /\ x[2] <= Frames(d) THEN entries[x] + 1 ELSE entries[x]]
                /\ marks' = marks \cup {d}
             /\ stamp' = inst[i].cur
             /\ inst' = [inst EXCEPT ![i].st = "read"]
             /\ UNCHANGED <<log, done>>
Interrupt(i) == /\ inst[i].st # "off" /\ inst' = [inst EXCEPT ![i] = Off]
                /\ UNCHANGED <<log, entries, marks, stamp, done>>
FineNext == /\ \/ \E d \in Docs : Announce(d)
               \/ \E i \in Insts : Start(i) \/ Snapshot(i) \/ Next1(i) \/ Commit(i) \/ Interrupt(i)
            /\ UNCHANGED hist
FineSpec == IndexInit /\ [][FineNext]_vars
Once == \A x \in All : entries[x] <= 1
Whole == \A d \in Docs : \A f \in 1..Frames(d) : entries[<<d, f>>] = IF d \in marks THEN 1 ELSE 0
Nothing == \A x \in All : x[2] > Frames(x[1]) => entries[x] = 0
CaughtUp == done \subseteq marks
\* resuming from the stamp skips nothing
NoSkip == \A k \in 1..stamp : log[k] \in marks
---------------------------------------------------------------------------
Log(r) == hist' = Append(hist, r)
GenNext == /\ Len(hist) < Depth
           /\ UNCHANGED <<entries, marks, stamp, inst, done>>
           /\ \/ \E d \in Docs : Len(log) < MaxEvents /\ log' = Append(log, d) /\ Log([op |-> "process", d |-> d])
              \/ /\ log # <<>> /\ UNCHANGED log
                 /\ \/ \E how \in {"whole", "raise", "die", "commit"} : Log([op |-> "catchup", how |-> how])
                    \/ \E d \in Docs : Log([op |-> "add", d |-> d])
                    \/ Log([op |-> "reopen"]) \/ Log([op |-> "both"])
GenSpec == IndexInit /\ [][GenNext]_vars
Emit == (Len(hist) = Depth /\ \E k \in DOMAIN hist : hist[k].op = "catchup") => PrintT("GEN " \o ToJson(hist))
MCView == <<log, entries, marks, stamp, inst, done>>
=============================================================================
