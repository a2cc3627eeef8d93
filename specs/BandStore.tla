------------------------------ MODULE BandStore ------------------------------
(* C29.  A multi-resolution representation: bands with their own edges and    *)
(* their own number of coefficients per moment.  What a user sees is `bands`  *)
(* (band -> moment -> coefficients); what there is, is one array of columns   *)
(* (`mat`: moment -> columns) and where every band begins in it (`offs`).     *)
(* Every operation is described on both; Place says they never part.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Widths, Moments, Depth
W1 == {<<1, 3, 2>>, <<2, 1>>, <<3>>}
W2 == {<<1, 1, 1>>}
W3 == {<<1, 1, 1, 1, 1>>, <<1, 1>>}
VARIABLES edges,  \* which bands there are, by number
          bands, mat, offs, hist
vars == <<edges, bands, mat, offs, hist>>

\* ---- what is there -----------------------------------------------------------
Concat(ss) == FlattenSeq(ss)
Columns(bs, nt) == [t \in 1..nt |-> Concat([b \in 1..Len(bs) |-> bs[b][t]])]
RECURSIVE Offsets(_, _)
Offsets(ws, at) == IF ws = <<>> THEN <<at>> ELSE <<at>> \o Offsets(Tail(ws), at + ws[1])
NT(bs) == Len(bs[1])
WidthOf(bs, b) == IF NT(bs) = 0 THEN 0 ELSE Len(bs[b][1])

\* ---- what the operations mean to the user --------------------------------------
SetCells(bs, b1, b2, t1, t2, cells) ==
    [b \in 1..Len(bs) |-> [t \in 1..NT(bs) |->
        IF b \in b1..b2 /\ t \in t1..t2 THEN cells[b - b1 + 1][t - t1 + 1] ELSE bs[b][t]]]
TakeBands(bs, b1, b2) == SubSeq(bs, b1, b2)
TakeTime(bs, t1, t2) == [b \in 1..Len(bs) |-> SubSeq(bs[b], t1, t2)]
Join(bs, cs) == [b \in 1..Len(bs) |-> bs[b] \o cs[b]]
Weigh(bs, ws) == [b \in 1..Len(bs) |-> [t \in 1..Len(bs[b]) |-> [k \in 1..Len(bs[b][t]) |-> ws[b] * bs[b][t][k]]]]

\* a view of n coefficients per band and moment: bands are either n wide, or the same all along
Squared(bs, n) == [t \in 1..NT(bs) |-> [k \in 1..n |-> [b \in 1..Len(bs) |->
                     IF Len(bs[b][t]) = n THEN bs[b][t][k] ELSE bs[b][t][1]]]]
RECURSIVE SumOver(_, _)
SumOver(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN f[x] + SumOver(f, s \ {x})
\* and the same with the moments laid over each other, hop coefficients apart
OverlapAdd(bs, n, hop) ==
    LET sq == Squared(bs, n) IN
    [m \in 1..((NT(bs) - 1) * hop + n) |-> [b \in 1..Len(bs) |->
        LET ts == {t \in 1..NT(bs) : m > (t - 1) * hop /\ m <= (t - 1) * hop + n} IN
        SumOver([t \in ts |-> sq[t][m - (t - 1) * hop][b]], ts)]]

\* ---- the same on columns -----------------------------------------------------
MatSet(m, of, b1, b2, t1, t2, cells) ==
    [t \in 1..Len(m) |-> IF t \notin t1..t2 THEN m[t]
        ELSE SubSeq(m[t], 1, of[b1]) \o Concat([j \in 1..(b2 - b1 + 1) |-> cells[j][t - t1 + 1]])
             \o SubSeq(m[t], of[b2 + 1] + 1, Len(m[t]))]
MatTake(m, of, b1, b2) == [t \in 1..Len(m) |-> SubSeq(m[t], of[b1] + 1, of[b2 + 1])]
Rebase(of, b1, b2) == [j \in 1..(b2 - b1 + 2) |-> of[b1 + j - 1] - of[b1]]

\* ---- behaviours -----------------------------------------------------------------
Fresh(ws, nt, seed) == [b \in 1..Len(ws) |-> [t \in 1..nt |-> [k \in 1..ws[b] |-> seed + 100 * b + 10 * t + k]]]
Ws == [b \in 1..Len(bands) |-> offs[b + 1] - offs[b]]
Init == \E ws \in Widths : \E nt \in Moments :
            /\ edges = [b \in 1..Len(ws) |-> b] /\ bands = Fresh(ws, nt, 0)
            /\ mat = Columns(bands, nt) /\ offs = Offsets(ws, 0)
            /\ hist = <<[op |-> "build", b1 |-> nt, b2 |-> 0, t1 |-> 0, t2 |-> 0, ws |-> ws]>>
Note(o, b1, b2, t1, t2) == hist' = Append(hist, [op |-> o, b1 |-> b1, b2 |-> b2, t1 |-> t1, t2 |-> t2, ws |-> <<>>])
More == Len(hist) <= Depth
Set == /\ More /\ \E b1 \in 1..Len(bands) : \E b2 \in b1..Len(bands) : \E t1 \in 1..Len(mat) : \E t2 \in t1..Len(mat) :
          LET cells == [j \in 1..(b2 - b1 + 1) |-> [t \in 1..(t2 - t1 + 1) |-> [k \in 1..Ws[b1 + j - 1] |-> 1000 * Len(hist) + j + t + k]]] IN
          /\ bands' = SetCells(bands, b1, b2, t1, t2, cells)
          /\ mat' = MatSet(mat, offs, b1, b2, t1, t2, cells)
          /\ Note("set", b1, b2, t1, t2)
       /\ UNCHANGED <<edges, offs>>
Bands == /\ More /\ Len(bands) > 1 /\ \E b1 \in 1..Len(bands) : \E b2 \in b1..Len(bands) :
            /\ bands' = TakeBands(bands, b1, b2) /\ edges' = SubSeq(edges, b1, b2)
            /\ mat' = MatTake(mat, offs, b1, b2) /\ offs' = Rebase(offs, b1, b2)
            /\ Note("range", b1, b2, 0, 0)
Time == /\ More /\ Len(mat) > 1 /\ \E t1 \in 1..Len(mat) : \E t2 \in t1..Len(mat) :
            /\ bands' = TakeTime(bands, t1, t2) /\ mat' = SubSeq(mat, t1, t2) /\ Note("time", 0, 0, t1, t2)
        /\ UNCHANGED <<edges, offs>>
Joins == /\ More /\ Len(mat) < 4 /\ \E nt \in Moments :
            LET cs == Fresh(Ws, nt, 5000) IN
            /\ bands' = Join(bands, cs) /\ mat' = mat \o Columns(cs, nt) /\ Note("join", nt, 0, 0, 0)
         /\ UNCHANGED <<edges, offs>>
Like == /\ More /\ \E nt \in Moments :
            LET cs == Fresh(Ws, nt, 7000) IN
            /\ bands' = cs /\ mat' = Columns(cs, nt) /\ Note("like", nt, 0, 0, 0)
        /\ UNCHANGED <<edges, offs>>
Weighing == /\ More /\ LET w == [b \in 1..Len(bands) |-> edges[b] + 1] IN
                /\ bands' = Weigh(bands, w)
                /\ mat' = [t \in 1..Len(mat) |-> Concat([b \in 1..Len(bands) |->
                              [k \in 1..Ws[b] |-> w[b] * mat[t][offs[b] + k]]])]
                /\ Note("weigh", 0, 0, 0, 0)
            /\ UNCHANGED <<edges, offs>>
Same == More /\ \E o \in {"store", "again"} : Note(o, 0, 0, 0, 0) /\ UNCHANGED <<edges, bands, mat, offs>>
Next == Set \/ Bands \/ Time \/ Joins \/ Like \/ Weighing \/ Same
Spec == Init /\ [][Next]_vars
MCView == <<edges, bands, mat, offs, Len(hist)>>

\* every band is its own run of columns, in band order, and nothing else is there
Place == /\ Len(offs) = Len(bands) + 1 /\ offs[1] = 0 /\ Len(edges) = Len(bands)
         /\ \A b \in 1..Len(bands) : \A t \in 1..Len(mat) :
                SubSeq(mat[t], offs[b] + 1, offs[b + 1]) = bands[b][t]
         /\ \A t \in 1..Len(mat) : Len(mat[t]) = offs[Len(offs)]
Ordered == \A b \in 1..(Len(edges) - 1) : edges[b + 1] = edges[b] + 1
OneTimeAxis == \A b \in 1..Len(bands) : Len(bands[b]) = Len(mat)
Emit == Len(hist) = Depth + 1 => PrintT("GEN " \o ToJson(hist))
=============================================================================
