--------------------------- MODULE SampleReservoir ---------------------------
(* C19.  A reservoir of N places.  Every offer picks a place for each of its *)
(* samples; a sample is written to that place under every key.  Offers come  *)
(* from several threads; one offer is written under the reservoir's lock.    *)
(* And a one-pass sampler, which keeps every sample of a stream with the     *)
(* same probability.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Keys, Threads, Offers, Kinds, Depth
VARIABLES slot,      \* key -> place -> sample (0: nothing yet)
          pc, cur, todo, lock, offered, view, hist
vars == <<slot, pc, cur, todo, lock, offered, view, hist>>
Places == 1..N
RECURSIVE Write(_, _, _)
\* the samples go to their places one after the other: the last one stays
Write(s, where, samples) ==
    IF samples = <<>> THEN s
    ELSE Write([s EXCEPT ![where[1]] = samples[1]], SubSeq(where, 2, Len(where)), SubSeq(samples, 2, Len(samples)))
Init == /\ slot = [k \in Keys |-> [p \in Places |-> 0]]
        /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> [samples |-> <<>>, where |-> <<>>]]
        /\ todo = [t \in Threads |-> {}] /\ lock = "" /\ offered = {} /\ view = {} /\ hist = <<>>
Begin(t) ==
    /\ Len(hist) < Depth /\ pc[t] = "idle" /\ lock = ""
    /\ \E n \in Offers : \E kind \in Kinds :
        /\ hist' = Append(hist, [op |-> kind, n |-> n])
        /\ IF kind = "good" THEN
             LET samples == [i \in 1..n |-> 10 * (Len(hist) + 1) + i] IN
             \E where \in [1..n -> Places] :
               /\ cur' = [cur EXCEPT ![t] = [samples |-> samples, where |-> where]]
               /\ offered' = offered \cup {samples[i] : i \in 1..n}
               /\ todo' = [todo EXCEPT ![t] = Keys] /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "write"]
           ELSE UNCHANGED <<cur, offered, todo, lock, pc>>     \* refused
    /\ UNCHANGED <<slot, view>>
WriteKey(t) ==
    /\ pc[t] = "write" /\ \E k \in todo[t] :
        /\ slot' = [slot EXCEPT ![k] = Write(@, cur[t].where, cur[t].samples)]
        /\ todo' = [todo EXCEPT ![t] = @ \ {k}]
        /\ IF todo[t] = {k} THEN pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = "" ELSE UNCHANGED <<pc, lock>>
    /\ UNCHANGED <<cur, offered, view, hist>>
Read == /\ lock = "" /\ view' = {p \in Places : \E k \in Keys : slot[k][p] # 0} /\ UNCHANGED <<slot, pc, cur, todo, lock, offered, hist>>
Next == (\E t \in Threads : Begin(t) \/ WriteKey(t)) \/ Read
Spec == Init /\ [][Next]_vars
SetOf(s) == {s[i] : i \in DOMAIN s}
\* whenever nobody is in the middle of an offer, all keys agree on every place
Aligned == lock = "" => \A a, b \in Keys : slot[a] = slot[b]
OnlyOffered == \A k \in Keys : \A p \in Places : slot[k][p] = 0 \/ slot[k][p] \in offered
\* each sample is held once at most
Once == \A k \in Keys : \A p, q \in Places : p # q /\ slot[k][p] # 0 => slot[k][p] # slot[k][q]
NeverShrinks == [][\A k \in Keys : \A p \in Places : slot[k][p] # 0 => slot'[k][p] # 0]_vars
MCView == <<slot, pc, cur, todo, lock, Len(hist)>>
-----------------------------------------------------------------------------
\* The one-pass sampler: sample i (from 1) beyond the first n takes place j of
\* 1..i, drawn evenly, and is dropped when j > n.
Choices(n, m) == {c \in [n + 1..m -> 1..m] : \A i \in n + 1..m : c[i] <= i}
RECURSIVE Kept(_, _, _, _)
Kept(c, n, i, m) == IF i > m THEN [p \in 1..n |-> p]
                    ELSE LET rest == Kept(c, n, i, m - 1) IN
                         IF m > n /\ c[m] <= n THEN [rest EXCEPT ![c[m]] = m] ELSE rest
Evenly(n, m) == LET out == {<<c, Kept(c, n, 1, m)>> : c \in Choices(n, m)}
                    times(i) == Cardinality({x \in out : \E p \in 1..n : x[2][p] = i})
                IN  \A i \in 1..m : times(i) * m = n * Cardinality(out)
ASSUME Evenly(1, 4) /\ Evenly(2, 5) /\ Evenly(3, 6)
-----------------------------------------------------------------------------
\* what an offer may do to what is held, seen from outside: held lists the
\* samples held in the order of their places
Old(held, after) == SelectSeq(after, LAMBDA x : x \in SetOf(held))
New(held, after) == SelectSeq(after, LAMBDA x : x \notin SetOf(held))
IsSub(s, t) == \* s keeps the order of t
    \A i, j \in DOMAIN s : i < j => \E a, b \in DOMAIN t : a < b /\ t[a] = s[i] /\ t[b] = s[j]
AddClause(held, ids, after, cap) ==
    IF Len(after) > cap THEN "more samples are held than there is room for"
    ELSE IF Len(after) # Cardinality(SetOf(after)) THEN "a sample is held twice"
    ELSE IF ~ (SetOf(after) \subseteq (SetOf(held) \cup SetOf(ids))) THEN "a sample is held that was never offered"
    ELSE IF Len(after) < Len(held) THEN "samples got lost"
    ELSE IF Len(held) - Len(Old(held, after)) > Len(New(held, after)) THEN "samples got lost without being replaced"
    ELSE IF ids # <<>> /\ ids[Len(ids)] \notin SetOf(after) THEN "a sample that was just offered is not held"
    ELSE IF ~ IsSub(Old(held, after), held) THEN "samples that stay moved"
    ELSE ""
Emit == (Len(hist) = Depth /\ lock = "") => PrintT("GEN " \o ToJson([ops |-> hist]))
=============================================================================
