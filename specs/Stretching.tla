----------------------------- MODULE Stretching -----------------------------
(* C35.  A batch of sounds; a sound has a length and events, each with a      *)
(* moment and a pitch.  Stretching by p/q makes moments and length q/p times  *)
(* as large and leaves pitches alone, shifting pitch leaves moments and       *)
(* length alone, and delaying turns the sound around by some samples.  The    *)
(* sounds of a batch don't touch each other.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lengths, Moments, Factors, Shifts, Delays, Depth
VARIABLES batch, \* of [len, den, ev: set of <<moment, pitch>>]: lengths and moments in 1/den samples
          begun, \* what it was at first
          stretched, shifted, delayed, hist
vars == <<batch, begun, stretched, shifted, delayed, hist>>
F1 == {<<1, 2>>, <<2, 1>>, <<3, 2>>}
F2 == {<<1, 2>>, <<3, 4>>, <<1, 1>>, <<5, 4>>, <<3, 2>>, <<2, 1>>}
S1 == {-1, 2}
S2 == {-7, -1, 0, 4, 7}
D1 == {-1, 3}
D2 == {-1, 3}
Sounds == {[len |-> n, den |-> 1, ev |-> {<<m, m>> : m \in ms}] : n \in Lengths, ms \in SUBSET Moments}
Init == /\ batch \in {<<a, b>> : a, b \in {s \in Sounds : \A e \in s.ev : e[1] < s.len}}
        /\ Len(batch) = 2 /\ batch[1].len = batch[2].len
        /\ begun = batch /\ stretched = <<1, 1>> /\ shifted = 0 /\ delayed = <<>> /\ hist = <<>>
Each(Op(_)) == [k \in DOMAIN batch |-> Op(batch[k])]
\* p times as fast, q times as slow
StretchOne(p, q, s) == [len |-> s.len * q, den |-> s.den * p, ev |-> {<<e[1] * q, e[2]>> : e \in s.ev}]
ShiftOne(d, s) == [s EXCEPT !.ev = {<<e[1], e[2] + d>> : e \in s.ev}]
DelayOne(d, s) == [s EXCEPT !.ev = {<<(e[1] + d * s.den) % s.len, e[2]>> : e \in s.ev}]
Stretch == /\ Len(hist) < Depth
           /\ \E f \in Factors : LET op(s) == StretchOne(f[1], f[2], s)
                                 IN /\ batch' = Each(op) /\ stretched' = <<stretched[1] * f[1], stretched[2] * f[2]>>
                                    /\ hist' = Append(hist, <<"stretch", f[1], f[2]>>)
           /\ UNCHANGED <<begun, shifted, delayed>>
Pitch == /\ Len(hist) < Depth
         /\ \E d \in Shifts : LET op(s) == ShiftOne(d, s)
                              IN batch' = Each(op) /\ shifted' = shifted + d /\ hist' = Append(hist, <<"pitch", d, 1>>)
         /\ UNCHANGED <<begun, stretched, delayed>>
Delay == /\ Len(hist) < Depth
         /\ \E d \in Delays : LET op(s) == DelayOne(d, s)
                              IN batch' = Each(op) /\ delayed' = Append(delayed, d) /\ hist' = Append(hist, <<"delay", d, 1>>)
         /\ UNCHANGED <<begun, stretched, shifted>>
Next == Stretch \/ Pitch \/ Delay
Spec == Init /\ [][Next]_vars
MCView == <<batch, begun, stretched, shifted, delayed, Len(hist)>>
\* only stretching changes how long a sound is, and every sound of a batch is as long as the others
SameLength == \A k \in DOMAIN batch : /\ batch[k].len = begun[k].len * stretched[2] /\ batch[k].den = stretched[1]
                                      /\ batch[k].len * batch[1].den = batch[1].len * batch[k].den
\* events are never lost, doubled or invented, and stay within the sound
SameEvents == \A k \in DOMAIN batch : /\ Cardinality(batch[k].ev) = Cardinality(begun[k].ev)
                                      /\ \A e \in batch[k].ev : e[1] >= 0 /\ e[1] < batch[k].len
\* as long as nothing is delayed, moments keep their proportion of the sound; pitches are shifted by the sum
Proportion == delayed = <<>> => \A k \in DOMAIN batch : {<<e[1] * begun[k].len, e[2]>> : e \in batch[k].ev}
                                 = {<<e[1] * batch[k].len, e[2] + shifted>> : e \in begun[k].ev}
\* delaying alone is undone by delaying back
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Undone == (stretched = <<1, 1>> /\ shifted = 0 /\ Sum(delayed) = 0) => batch = begun
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
