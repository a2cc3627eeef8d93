----------------------------- MODULE ArrayStore -----------------------------
(* C13.  Arrays with units are written chunk by chunk: a header describing   *)
(* the axes and the type once, then rows.  Reading gives the rows of all     *)
(* chunks under the axes of the stream.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Heads, Vals, RowLens, ChunkLens, MaxChunks
VARIABLES head, width, packed, disk, sent, hist
vars == <<head, width, packed, disk, sent, hist>>
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * (IF k = 1 THEN 1 ELSE IF k = 2 THEN 2 ELSE IF k = 3 THEN 4 ELSE IF k = 4 THEN 8
           ELSE IF k = 5 THEN 16 ELSE IF k = 6 THEN 32 ELSE 64)
\* eight bits starting at bit b of the row, missing ones are zero
Byte(row, b) == LET bit(k) == IF b + k <= Len(row) /\ row[b + k] # 0 THEN Pow2(7 - k) ELSE 0
                IN  bit(0) + bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7)
Pack(row) == [k \in 1..((Len(row) + 7) \div 8) |-> Byte(row, 8 * (k - 1) + 1)]
PackedRows(rows) == [i \in DOMAIN rows |-> Pack(rows[i])]
Stored(rows, p) == IF p THEN PackedRows(rows) ELSE rows
Empty == [head |-> "", rows |-> <<>>]
Init == /\ head \in Heads /\ width \in RowLens /\ packed \in BOOLEAN
        /\ disk = Empty /\ sent = <<>> /\ hist = <<>>
Write(rows) ==
    /\ disk' = [head |-> IF disk.head = "" THEN head ELSE disk.head, rows |-> disk.rows \o Stored(rows, packed)]
    /\ sent' = sent \o rows
    /\ hist' = Append(hist, Len(rows))
Next == /\ Len(hist) < MaxChunks
        /\ \E k \in ChunkLens : \E v \in Vals : Write([i \in 1..k |-> [j \in 1..width |-> (v + i * j) % 2]])
        /\ UNCHANGED <<head, width, packed>>
Spec == Init /\ [][Next]_vars
Decoded == disk.rows
\* what is read is what was written, however it was cut into chunks
RoundTrip == Decoded = Stored(sent, packed) /\ (hist # <<>> => disk.head = head)
\* packing is reversible
BitOf(row, j) == (row[((j - 1) \div 8) + 1] \div Pow2(7 - ((j - 1) % 8))) % 2
Reversible == packed => \A i \in DOMAIN sent : \A j \in 1..width : BitOf(Decoded[i], j) = (IF sent[i][j] = 0 THEN 0 ELSE 1)
Emit == Len(hist) = MaxChunks => PrintT("GEN " \o ToJson([width |-> width, packed |-> packed, chunks |-> hist]))
=============================================================================
