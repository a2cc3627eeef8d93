------------------------------- MODULE Ingest -------------------------------
(* C22.  Items of a dataset are handed out in order to at most Workers that   *)
(* look whether the item is there already, process it if not, and report it   *)
(* if that fails.  The dataset may break off after some items.  Ingesting is  *)
(* over when nothing is left to do and nobody is at it; it may be repeated,   *)
(* and items may have been mended (or broken) meanwhile.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Urls, N, Workers, Passes
VARIABLES items,   \* the urls of the items, in order
          good,    \* the urls that can be processed at present
          avail,   \* how many items the dataset delivers before it breaks off
          skip,    \* whether items that are there are left out
          next, busy,
          there,   \* urls with something stored
          full,    \* urls with everything stored
          tries,   \* how often each item was processed in this pass
          reported,\* items that failed in this pass
          over, pass, before, hist
vars == <<items, good, avail, skip, next, busy, there, full, tries, reported, over, pass, before, hist>>
Ix == DOMAIN items
Zero == [i \in Ix |-> 0]
Init == /\ items \in UNION {[1..n -> Urls] : n \in 0..N} /\ good \in SUBSET Urls
        /\ avail \in 0..Len(items) /\ skip \in BOOLEAN
        /\ there \in SUBSET Urls /\ full = there
        /\ next = 1 /\ busy = {} /\ tries = Zero /\ reported = {} /\ over = FALSE /\ pass = 1 /\ before = there
        /\ hist = <<[op |-> "begin", i |-> avail, good |-> good, skip |-> skip, there |-> there]>>
Note(x, i) == hist' = Append(hist, [op |-> x, i |-> i, good |-> {}, skip |-> skip, there |-> {}])
Take == /\ ~over /\ next <= avail /\ Cardinality(busy) < Workers
        /\ next' = next + 1
        /\ IF skip /\ items[next] \in there THEN UNCHANGED <<busy, tries>> /\ Note("skip", next)
           ELSE busy' = busy \union {next} /\ tries' = [tries EXCEPT ![next] = @ + 1] /\ Note("start", next)
        /\ UNCHANGED <<items, good, avail, skip, there, full, reported, over, pass, before>>
\* a failure may leave something behind
End == /\ \E i \in busy :
            /\ busy' = busy \ {i} /\ Note("end", i)
            /\ IF items[i] \in good
               THEN there' = there \union {items[i]} /\ full' = full \union {items[i]} /\ UNCHANGED reported
               ELSE /\ reported' = reported \union {i} /\ full' = full \ {items[i]}
                    /\ \E left \in BOOLEAN : there' = IF left THEN there \union {items[i]} ELSE there
       /\ UNCHANGED <<items, good, avail, skip, next, tries, over, pass, before>>
Over == /\ ~over /\ next > avail /\ busy = {} /\ over' = TRUE /\ Note("over", 0)
        /\ UNCHANGED <<items, good, avail, skip, next, busy, there, full, tries, reported, pass, before>>
Again == /\ over /\ pass < Passes /\ pass' = pass + 1 /\ over' = FALSE
         /\ good' \in SUBSET Urls /\ skip' \in BOOLEAN /\ avail' = Len(items)
         /\ next' = 1 /\ tries' = Zero /\ reported' = {} /\ before' = there /\ hist' = Append(hist, [op |-> "begin", i |-> avail', good |-> good', skip |-> skip', there |-> {}])
         /\ UNCHANGED <<items, busy, there, full>>
Next == Take \/ End \/ Over \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ End \/ Over)
MCView == <<items, good, avail, skip, next, busy, there, full, tries, reported, over, pass, before>>
Once == \A i \in Ix : tries[i] <= 1
\* nothing that was there is touched when it is to be left out; everything else is tried
Skipped == (over /\ skip) => \A i \in 1..avail : tries[i] = 0 => items[i] \in there
Untouched == skip => \A i \in Ix : items[i] \in before => tries[i] = 0
Tried == over => \A i \in 1..avail : (~skip \/ \A j \in Ix : items[j] \notin before) => \E j \in Ix : items[j] = items[i] /\ tries[j] = 1
Stored == over => \A i \in 1..avail : (tries[i] = 1 /\ items[i] \in good) => items[i] \in full
Failed == over => reported = {i \in Ix : tries[i] = 1 /\ items[i] \notin good}
Alone == \A u \in Urls : (\A i \in Ix : items[i] = u => tries[i] = 0) => (u \in there <=> u \in before)
Quiet == over => busy = {}
Finishes == [](~over => <>over)
Emit == (over /\ pass = Passes) => PrintT("GEN " \o ToJson([items |-> items, workers |-> Workers, hist |-> hist]))
=============================================================================
