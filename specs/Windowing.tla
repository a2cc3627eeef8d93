----------------------------- MODULE Windowing -----------------------------
(* C06.  Cutting a sequence of l samples (numbered 1..l) into windows of w   *)
(* samples taken every s samples.  The machine cuts one window at a time;    *)
(* its final state is compared with the closed forms that the trace judge    *)
(* uses for whole calls of the implementation.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

NWin(l, w, s) == IF l < w THEN 0 ELSE (l - w) \div s + 1
\* window k (from 0); 0 stands for padding
Win(l, w, s, k) == [j \in 1..w |-> IF k * s + j <= l THEN k * s + j ELSE 0]
Wins(l, w, s, n) == [k \in 1..n |-> Win(l, w, s, k - 1)]
\* from the first window start that was not produced
Left(l, w, s) == LET n == NWin(l, w, s) IN
    IF n * s >= l THEN <<>> ELSE [i \in 1..(l - n * s) |-> n * s + i]
\* sample i (from 0) lies in one of the first n windows / in any window at all
Covered(i, w, s, n) == \E k \in 0..(n - 1) : k * s <= i /\ i < k * s + w
Coverable(i, w, s) == i % s < w
\* padding: n windows are right when they reach every sample and none is only padding
PadCount(l, w, s, n) ==
    /\ l = 0 => n = 0
    /\ n > 0 => (n - 1) * s < l
    /\ \A i \in 0..(l - 1) : Coverable(i, w, s) => Covered(i, w, s, n)
CeilDiv(a, b) == (a + b - 1) \div b

\* windows along several axes, in row-major order of their positions
Prod3(a) == a[1] * a[2] * a[3]
Counts(shape, ws, ss) == [x \in 1..3 |-> NWin(shape[x], ws[x], ss[x])]
\* the p-th (from 0) position of a box of the given size, row-major
Pos(box, p) == <<p \div (box[2] * box[3]), (p \div box[3]) % box[2], p % box[3]>>
Flat(shape, q) == q[1] * shape[2] * shape[3] + q[2] * shape[3] + q[3] + 1
WinsND(shape, ws, ss) ==
    LET cs == Counts(shape, ws, ss) IN
    [p \in 1..Prod3(cs) |-> [j \in 1..Prod3(ws) |->
        LET at == Pos(cs, p - 1) inn == Pos(ws, j - 1) IN
            Flat(shape, [x \in 1..3 |-> at[x] * ss[x] + inn[x]])]]

\* ---- the machine ------------------------------------------------------------
CONSTANTS Ls, Ws, Ss
VARIABLES l, w, s, pad, k, out, rest, done
vars == <<l, w, s, pad, k, out, rest, done>>
Init == /\ l \in Ls /\ w \in Ws /\ s \in Ss /\ pad \in BOOLEAN
        /\ k = 0 /\ out = <<>> /\ rest = [i \in 1..l |-> i] /\ done = FALSE
Drop(q, n) == IF n >= Len(q) THEN <<>> ELSE SubSeq(q, n + 1, Len(q))
Cut == /\ ~done /\ k * s + w <= l
       /\ out' = Append(out, [j \in 1..w |-> k * s + j]) /\ k' = k + 1
       /\ rest' = Drop(rest, s) /\ UNCHANGED <<l, w, s, pad, done>>
Reached(n) == \A i \in 0..(l - 1) : Coverable(i, w, s) => Covered(i, w, s, n)
\* with padding, one more window is cut while samples are not reached
CutPadded == /\ ~done /\ pad /\ k * s + w > l /\ ~Reached(k)
             /\ out' = Append(out, Win(l, w, s, k)) /\ k' = k + 1
             /\ rest' = Drop(rest, s) /\ UNCHANGED <<l, w, s, pad, done>>
Stop == /\ ~done /\ k * s + w > l /\ (pad => Reached(k))
        /\ done' = TRUE /\ UNCHANGED <<l, w, s, pad, k, out, rest>>
Next == Cut \/ CutPadded \/ Stop
Spec == Init /\ [][Next]_vars

UnpaddedExact == done /\ ~pad => out = Wins(l, w, s, NWin(l, w, s)) /\ rest = Left(l, w, s)
PaddedExact == done /\ pad => out = Wins(l, w, s, Len(out)) /\ PadCount(l, w, s, Len(out))
\* the leftovers start where the next window would
RestIsNext == \A i \in DOMAIN rest : rest[i] = k * s + i
NothingLost == done /\ w >= s => \A i \in 1..l :
    (\E a \in DOMAIN out : \E j \in DOMAIN out[a] : out[a][j] = i) \/ (\E j \in DOMAIN rest : rest[j] = i)
\* the one-axis case of the many-axes form
NDAgrees == done /\ ~pad => WinsND(<<1, 1, l>>, <<1, 1, w>>, <<1, 1, s>>) = out
Emit == done => PrintT("GEN " \o ToJson([l |-> l, w |-> w, s |-> s, pad |-> pad]))
=============================================================================
