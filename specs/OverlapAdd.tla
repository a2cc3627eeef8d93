----------------------------- MODULE OverlapAdd -----------------------------
(* C11.  Windows of w samples, one every h samples, are added back together  *)
(* one after the other.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ws, Hs, Vals, MaxFrames
VARIABLES w, h, frames, out
vars == <<w, h, frames, out>>
Length(k, ww, hh) == IF k = 0 THEN 0 ELSE (k - 1) * hh + ww
Zeros(k) == [i \in 1..k |-> 0]
\* place a frame at its own position
Place(o, f, k, hh) ==
    LET at == k * hh
        n == IF at + Len(f) > Len(o) THEN at + Len(f) ELSE Len(o)
    IN  [i \in 1..n |-> (IF i <= Len(o) THEN o[i] ELSE 0) +
                        (IF i > at /\ i <= at + Len(f) THEN f[i - at] ELSE 0)]
\* frames that cover position i (0-based)
Covering(k, ww, hh, i) == {j \in 0..(k - 1) : j * hh <= i /\ i < j * hh + ww}
RECURSIVE SumOver(_, _, _, _)
SumOver(fs, hh, i, S) == IF S = {} THEN 0
    ELSE LET j == CHOOSE x \in S : TRUE IN fs[j + 1][i - j * hh + 1] + SumOver(fs, hh, i, S \ {j})
Init == w \in Ws /\ h \in Hs /\ frames = <<>> /\ out = <<>>
Add == /\ Len(frames) < MaxFrames
       /\ \E f \in [1..w -> Vals] :
            frames' = Append(frames, f) /\ out' = Place(out, f, Len(frames), h)
       /\ UNCHANGED <<w, h>>
Next == Add
Spec == Init /\ [][Next]_vars
IsSum == /\ Len(out) = Length(Len(frames), w, h)
         /\ \A i \in DOMAIN out : out[i] = SumOver(frames, h, i - 1, Covering(Len(frames), w, h, i - 1))
\* windows of an unmodified signal add up to the signal, as often as it is covered
Signal == [i \in 1..20 |-> (i * i) % 7]
Unmodified == LET fs == [j \in 1..Len(frames) |-> [x \in 1..w |-> Signal[(j - 1) * h + x]]] IN
    \A i \in DOMAIN out : SumOver(fs, h, i - 1, Covering(Len(fs), w, h, i - 1)) =
                           Signal[i] * Cardinality(Covering(Len(fs), w, h, i - 1))
Emit == Len(frames) = MaxFrames => PrintT("GEN " \o ToJson([w |-> w, h |-> h, frames |-> frames]))
=============================================================================
