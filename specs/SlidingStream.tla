--------------------------- MODULE SlidingStream ---------------------------
(* C07.  A stream of l samples (1..l) arrives in chunks at a windowing node, *)
(* which emits windows of w samples every s samples, keeps what it still     *)
(* needs, and pads the last partial window when the stream ends.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

NWin(n, w, s) == IF n < w THEN 0 ELSE (n - w) \div s + 1
Win(l, w, s, k) == [j \in 1..w |-> IF k * s + j <= l THEN k * s + j ELSE 0]
\* what the whole stream has to give: all full windows, then the samples from
\* the next start on (if any) in one padded window; p windows of zeros first
NOut(l, w, s) == LET n == NWin(l, w, s) IN IF n * s < l THEN n + 1 ELSE n
Whole(l, w, s, p) == [k \in 1..(p + NOut(l, w, s)) |->
    IF k <= p THEN [j \in 1..w |-> 0] ELSE Win(l, w, s, k - p - 1)]

CONSTANTS Ls, Ws, Ss, Chunks, MaxChunks
VARIABLES l, w, s, pos, cache, skip, out, hist, done
vars == <<l, w, s, pos, cache, skip, out, hist, done>>
Init == /\ l \in Ls /\ w \in Ws /\ s \in Ss
        /\ pos = 0 /\ cache = <<>> /\ skip = 0 /\ out = <<>> /\ hist = <<>> /\ done = FALSE
Drop(q, n) == IF n >= Len(q) THEN <<>> ELSE SubSeq(q, n + 1, Len(q))
Min2(a, b) == IF a < b THEN a ELSE b
Pad(q, n) == [j \in 1..n |-> IF j <= Len(q) THEN q[j] ELSE 0]
Feed(m) ==
    /\ ~done /\ m <= l - pos /\ Len(hist) < MaxChunks
    /\ LET chunk == [i \in 1..m |-> pos + i]
           new == Drop(chunk, skip)
           all == cache \o new
           n == NWin(Len(all), w, s)
       IN /\ out' = out \o [k \in 1..n |-> [j \in 1..w |-> all[(k - 1) * s + j]]]
          /\ cache' = Drop(all, n * s)
          \* a step beyond the end of the data is made up for later
          /\ skip' = (skip - Min2(skip, m)) + (IF n * s > Len(all) THEN n * s - Len(all) ELSE 0)
    /\ pos' = pos + m /\ hist' = Append(hist, m) /\ UNCHANGED <<l, w, s, done>>
Finish == /\ ~done /\ pos = l /\ done' = TRUE
          /\ out' = IF cache = <<>> THEN out ELSE Append(out, Pad(cache, w))
          /\ cache' = <<>> /\ UNCHANGED <<l, w, s, pos, skip, hist>>
Next == (\E m \in Chunks : Feed(m)) \/ Finish
Spec == Init /\ [][Next]_vars

ChunkingIrrelevant == done => out = Whole(l, w, s, 0)
PrefixAlways == \A k \in DOMAIN out : out[k] = Whole(l, w, s, 0)[k]
\* the cache never holds a full window, and starts at the next window
CacheIsNext == /\ ~done => Len(cache) < w
               /\ \A i \in DOMAIN cache : cache[i] = Len(out) * s + i
               /\ cache # <<>> => skip = 0
MCView == <<l, w, s, pos, cache, skip, out, done>>
Emit == done => PrintT("GEN " \o ToJson([l |-> l, w |-> w, s |-> s, chunks |-> hist]))
=============================================================================
