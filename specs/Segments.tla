------------------------------ MODULE Segments ------------------------------
(* C12.  A stream of n detection frames, spaced f apart, arrives in chunks;   *)
(* frames in the set onsets start a new segment.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Fs
VARIABLES n, f, onsets, pos, left, out, hist, done
vars == <<n, f, onsets, pos, left, out, hist, done>>

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* boundaries in ascending order
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Asc(S \ {MinOf(S)})
\* the segments [start, duration] of n frames: cut at every onset after time 0
Tiling(k, per, ons) ==
    LET b == <<0>> \o Asc({i \in ons : i > 0 /\ i < k}) \o <<k>> IN
    [j \in 1..(Len(b) - 1) |-> <<b[j] * per, (b[j + 1] - b[j]) * per>>]
\* a segment of no length says nothing
Real(q) == SelectSeq(q, LAMBDA x : x[2] # 0)

Init == /\ n \in 1..MaxN /\ f \in Fs /\ onsets \in SUBSET (0..(n - 1))
        /\ pos = 0 /\ left = 0 /\ out = <<>> /\ hist = <<>> /\ done = FALSE
Feed(m) ==
    /\ ~done /\ pos + m <= n
    /\ LET new == {i \in onsets : i >= pos /\ i < pos + m}
           b == <<left>> \o [j \in DOMAIN Asc(new) |-> Asc(new)[j] * f]
       IN /\ out' = out \o [j \in 1..(Len(b) - 1) |-> <<b[j], b[j + 1] - b[j]>>]
          /\ left' = b[Len(b)]
    /\ pos' = pos + m /\ hist' = Append(hist, m) /\ UNCHANGED <<n, f, onsets, done>>
Finish == /\ ~done /\ pos = n /\ done' = TRUE
          /\ out' = Append(out, <<left, pos * f - left>>)
          /\ UNCHANGED <<n, f, onsets, pos, left, hist>>
Next == (\E m \in 1..MaxN : Feed(m)) \/ Finish
Spec == Init /\ [][Next]_vars
Tiles == done => Real(out) = Tiling(n, f, onsets)
NoGap == \A j \in 1..(Len(out) - 1) : out[j][1] + out[j][2] = out[j + 1][1]
PrefixAlways == \A j \in DOMAIN Real(out) : Real(out)[j] = Tiling(n, f, onsets)[j]
MCView == <<n, f, onsets, pos, left, out, done>>
Emit == done => PrintT("GEN " \o ToJson([n |-> n, onsets |-> Asc(onsets), chunks |-> hist]))
=============================================================================
