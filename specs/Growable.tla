------------------------------ MODULE Growable ------------------------------
(* C28.  A growable buffer: an array with spare room (phys cells, the first  *)
(* pos of them in use) which is replaced by a larger one when room is short. *)
(* Cells that were allocated and not yet written hold junk.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Phys0, Pos0, Rates, Sizes, Depth
Junk == -99
VARIABLES buf, pos, rate, pc, pend, added, start, hist
vars == <<buf, pos, rate, pc, pend, added, start, hist>>
\* rate is in percent
TmpSize(n, r) == LET k == (n * r) \div 100 IN IF k = 0 THEN 1 ELSE k
Fresh(n) == [i \in 1..n |-> Junk]
Init == /\ start \in Phys0 \X Pos0 /\ rate \in Rates
        /\ buf = [i \in 1..start[1] |-> IF i <= start[2] THEN 0 - i ELSE Junk]
        /\ pos = start[2] /\ pc = "idle" /\ pend = <<>>
        /\ added = [i \in 1..start[2] |-> IF i <= start[1] THEN 0 - i ELSE Junk]
        /\ hist = <<>>
\* what is refused never gets as far as being counted
Begin == /\ pc = "idle" /\ Len(hist) < Depth
         /\ \E k \in Sizes, bad \in BOOLEAN :
              /\ pend' = [items |-> [i \in 1..k |-> 10 * (Len(hist) + 1) + i], bad |-> bad]
              /\ hist' = Append(hist, [n |-> k, bad |-> bad])
         /\ pc' = "grow" /\ UNCHANGED <<buf, pos, rate, added, start>>
Grow == /\ pc = "grow" /\ pc' = "write"
        /\ LET need == pos + Len(pend.items)
               amt  == TmpSize(Len(buf), rate)
               more == IF need <= Len(buf) THEN 0 ELSE IF Len(buf) + amt < need THEN need - Len(buf) ELSE amt
           IN  buf' = buf \o Fresh(more)
        /\ UNCHANGED <<pos, rate, pend, added, start, hist>>
Write == /\ pc = "write"
         /\ IF pend.bad THEN /\ buf' = [i \in DOMAIN buf |-> IF i = pos + 1 THEN Junk ELSE buf[i]] /\ pc' = "idle"
            ELSE /\ buf' = [i \in DOMAIN buf |-> IF i > pos /\ i <= pos + Len(pend.items) THEN pend.items[i - pos] ELSE buf[i]]
                 /\ pc' = "advance"
         /\ UNCHANGED <<pos, rate, pend, added, start, hist>>
Advance == /\ pc = "advance" /\ pos' = pos + Len(pend.items) /\ added' = added \o pend.items /\ pc' = "idle"
           /\ UNCHANGED <<buf, rate, pend, start, hist>>
Next == Begin \/ Grow \/ Write \/ Advance
Spec == Init /\ [][Next]_vars
Least(a, b) == IF a < b THEN a ELSE b
Logical == SubSeq(buf, 1, Least(pos, Len(buf)))
\* the content is everything that was added, in order, at every step
Content == /\ pos = Len(added)
           /\ (pc \in {"idle", "grow", "write"} => \A i \in 1..Len(Logical) : added[i] = Junk \/ Logical[i] = added[i])
           /\ (pc = "idle" /\ pos > start[2] => Len(Logical) = pos)
Emit == (Len(hist) = Depth /\ pc = "idle") =>
        PrintT("GEN " \o ToJson([phys |-> start[1], pos |-> start[2], rate |-> rate, ops |-> hist]))
=============================================================================
