------------------------------ MODULE ByteFeed ------------------------------
(* C09.  A file of Len frames, b bytes each after h header bytes, arrives as *)
(* chunks of bytes.  A buffer stands between the chunks and the decoder: it  *)
(* forgets what was read once more than Max bytes of it were, the decoder    *)
(* takes up to `want` whole frames per chunk and drains at the end.  A file  *)
(* of a format that must be complete before it can be opened yields nothing  *)
(* until then.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lens, Headers, Widths, Wants, Maxes, Chunks, MaxChunks
VARIABLES n, h, b, want, mx, whole,
          wr,      \* bytes written so far
          base,    \* file position of the first byte held
          rd,      \* file position of the decoder
          out, hist, done
vars == <<n, h, b, want, mx, whole, wr, base, rd, out, hist, done>>
Min2(x, y) == IF x < y THEN x ELSE y
Total == h + n * b
Init == /\ n \in Lens /\ h \in Headers /\ b \in Widths /\ want \in Wants /\ mx \in Maxes
        /\ whole \in BOOLEAN
        /\ wr = 0 /\ base = 0 /\ rd = 0 /\ out = <<>> /\ hist = <<>> /\ done = FALSE
\* the decoder may be opened
Open(w) == IF whole THEN w = Total ELSE w >= h
\* frames [from, from + k) of the file, k as many as asked for and there
Frames(from, w, k) ==
    LET p == IF from < h THEN h ELSE from
        can == IF w < p THEN 0 ELSE Min2(k, (w - p) \div b)
    IN [rd |-> p + can * b, got |-> [i \in 1..can |-> (p - h) \div b + i]]
Write(m) ==
    /\ ~done /\ wr + m <= Total /\ Len(hist) < MaxChunks /\ (hist = <<>> => m >= h)
    /\ wr' = wr + m
    /\ base' = IF rd - base > mx THEN rd ELSE base
    /\ LET r == Frames(rd, wr', want) IN
        IF Open(wr') THEN rd' = r.rd /\ out' = out \o r.got ELSE UNCHANGED <<rd, out>>
    /\ hist' = Append(hist, m) /\ UNCHANGED <<n, h, b, want, mx, whole, done>>
Drain == /\ ~done /\ wr = Total /\ done' = TRUE
         /\ LET r == Frames(rd, wr, n) IN rd' = r.rd /\ out' = out \o r.got
         /\ UNCHANGED <<n, h, b, want, mx, whole, wr, base, hist>>
\* the decoder may go back to what is still held
Seek == /\ ~done /\ hist # <<>> /\ rd' \in {p \in base..rd : p = 0 \/ (p >= h /\ (p - h) % b = 0)}
        /\ out' = SubSeq(out, 1, IF rd' < h THEN 0 ELSE (rd' - h) \div b)
        /\ UNCHANGED <<n, h, b, want, mx, whole, wr, base, hist, done>>
Next == Seek \/ (\E m \in Chunks : Write(m)) \/ Drain
Spec == Init /\ [][Next]_vars
InOrderOnce == \A i \in DOMAIN out : out[i] = i
AllAtEnd == done => Len(out) = n
HeldIsAhead == base <= rd /\ rd <= wr + h
FrameAligned == rd = 0 \/ (rd - h) % b = 0
MCView == <<n, h, b, want, mx, whole, wr, base, rd, out, done>>
Emit == done => PrintT("GEN " \o ToJson([n |-> n, h |-> h, b |-> b, want |-> want, mx |-> mx, chunks |-> hist]))
=============================================================================
