----------------------------- MODULE SourceMeta -----------------------------
(* C32, second part.  Whatever a document is made from, its root says where   *)
(* the audio is and what is known about it, and that is kept with it.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Docs, Kinds, Depth
VARIABLES kept,  \* document -> 0, or the number of the source that was kept
          made,  \* how many sources there were
          seen,  \* what the last reader was told: 0 nothing yet, -1 no such document, or a source
          who,   \* whom that reader asked about
          hist
vars == <<kept, made, seen, who, hist>>
Init == kept = [d \in Docs |-> 0] /\ made = 0 /\ seen = 0 /\ who = 0 /\ hist = <<>>
Put == /\ Len(hist) < Depth
       /\ \E d \in Docs, k \in Kinds : kept' = [kept EXCEPT ![d] = made + 1] /\ hist' = Append(hist, [op |-> "put", doc |-> d, kind |-> k])
       /\ made' = made + 1 /\ UNCHANGED <<seen, who>>
Get == /\ Len(hist) < Depth
       /\ \E d \in Docs : /\ seen' = (IF kept[d] = 0 THEN -1 ELSE kept[d]) /\ who' = d
                          /\ hist' = Append(hist, [op |-> "get", doc |-> d, kind |-> ""])
       /\ UNCHANGED <<kept, made>>
Next == Put \/ Get
Spec == Init /\ [][Next]_vars
MCView == <<kept, made, seen, who, Len(hist)>>
\* no two documents share a source, and a source does not come back
Own == \A d1, d2 \in Docs : d1 # d2 /\ kept[d1] # 0 => kept[d1] # kept[d2]
Latest == [][\A d \in Docs : kept'[d] # kept[d] => kept'[d] > made]_vars
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
