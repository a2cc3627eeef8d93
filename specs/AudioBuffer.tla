---------------------------- MODULE AudioBuffer ----------------------------
(* C27.  Audio samples: a sequence of frames with one or two channels at an *)
(* audio sample rate.  Values are integers in units of 1/2^k of full scale. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vals, MaxLen, Depth, Pads
VARIABLES buf, ch, hist
vars == <<buf, ch, hist>>
Frames(m) == UNION {[1..k -> [1..m -> Vals]] : k \in 0..MaxLen}

Stereo(q, m) == IF m = 2 THEN q ELSE [i \in DOMAIN q |-> <<q[i][1], q[i][1]>>]
Mono(q, m) == IF m = 1 THEN q ELSE [i \in DOMAIN q |-> <<(q[i][1] + q[i][2]) \div 2>>]
Silence(k, m) == [i \in 1..k |-> [j \in 1..m |-> 0]]
Padded(q, k, m) == q \o Silence(k, m)
Mix(q, r) == [i \in DOMAIN q |-> [j \in DOMAIN q[i] |-> q[i][j] + r[i][j]]]
Init == buf \in Frames(1) \cup Frames(2) /\ ch = (IF buf = <<>> THEN 1 ELSE Len(buf[1])) /\ hist = <<>>
Do(op, k, b, m) == buf' = b /\ ch' = m /\ hist' = Append(hist, [op |-> op, k |-> k])
Even == IF ch = 1 THEN TRUE ELSE \A i \in DOMAIN buf : (buf[i][1] + buf[i][2]) % 2 = 0
Next == /\ Len(hist) < Depth
        /\ \/ Do("stereo", 0, Stereo(buf, ch), 2)
           \/ Even /\ Do("mono", 0, Mono(buf, ch), 1)
           \/ \E k \in Pads : Do("pad", k, Padded(buf, k, ch), ch)
           \/ \E k \in Pads : Do("silence_like", k, Silence(k, ch), ch)
           \/ Do("mix", 0, Mix(buf, buf), ch)
           \/ Do("join", 0, buf \o buf, ch)
           \/ \E k \in Pads : k <= Len(buf) /\ Do("cut", k, SubSeq(buf, k + 1, Len(buf)), ch)
           \/ Do("encode", 0, buf, ch)
Spec == Init /\ [][Next]_vars
Shape == ch \in {1, 2} /\ \A i \in DOMAIN buf : DOMAIN buf[i] = 1..ch
MonoOfStereo == ch = 1 => Mono(Stereo(buf, 1), 2) = buf
PadKeeps == \A k \in Pads : SubSeq(Padded(buf, k, ch), 1, Len(buf)) = buf
MCView == <<buf, ch, Len(hist)>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([ops |-> hist]))
=============================================================================
