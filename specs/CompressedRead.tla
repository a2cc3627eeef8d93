--------------------------- MODULE CompressedRead ---------------------------
(* C10.  A stored compressed sound of n samples, read by spans of time and   *)
(* by chunk iterators, in any order.  A time is a pair <<i, r>>: i sample     *)
(* periods and r picoseconds, 0 <= r < p (p: picoseconds per period).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, P, Chunk, Depth, Starts, Durs
VARIABLES n, iters, hist
vars == <<n, iters, hist>>
Min(a, b) == IF a < b THEN a ELSE b
\* the time that is b later than a
Plus(a, b, p) == LET s == a[2] + b[2] IN IF s >= p THEN <<a[1] + b[1] + 1, s - p>> ELSE <<a[1] + b[1], s>>
\* the sample that sounds at time t
At(t) == t[1]
\* samples of a span: [first, count]
Span(m, s, e) == LET a == Min(At(s), m) z == Min(At(e), m) IN <<a, IF z > a THEN z - a ELSE 0>>
Remaining(m, s) == <<Min(At(s), m), m - Min(At(s), m)>>
\* chunk k of an iteration in chunks of c
ChunkOf(m, c, k) == LET a == Min(k * c, m) IN <<a, Min((k + 1) * c, m) - a>>
Times(S) == S \X (0..(P - 1))
Init == n \in Ns /\ iters = <<>> /\ hist = <<>>
Note(r) == hist' = Append(hist, r)
Read(s, d) == Note([op |-> "span", s |-> s, d |-> d, got |-> Span(n, s, Plus(s, d, P))]) /\ UNCHANGED <<n, iters>>
Open(s) == Note([op |-> "open", s |-> s, d |-> <<0, 0>>, got |-> Remaining(n, s)]) /\ UNCHANGED <<n, iters>>
Iterate == Len(iters) < 2 /\ iters' = Append(iters, 0)
           /\ Note([op |-> "iter", s |-> <<0, 0>>, d |-> <<0, 0>>, got |-> <<0, 0>>]) /\ UNCHANGED n
NextChunk(j) == /\ iters[j] * Chunk <= n
                /\ Note([op |-> "chunk", s |-> <<j, 0>>, d |-> <<0, 0>>, got |-> ChunkOf(n, Chunk, iters[j])])
                /\ iters' = [iters EXCEPT ![j] = @ + 1] /\ UNCHANGED n
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in Times(Starts), d \in Times(Durs) : Read(s, d)
           \/ \E s \in Times(Starts) : Open(s)
           \/ Iterate
           \/ \E j \in DOMAIN iters : NextChunk(j)
Spec == Init /\ [][Next]_vars
\* consecutive spans lose and repeat nothing
Tiles == \A s \in Times(Starts), d \in Times(Durs), d2 \in Times(Durs) :
            LET m == Plus(s, d, P) e == Plus(m, d2, P) a == Span(n, s, m) b == Span(n, m, e) w == Span(n, s, e) IN
            /\ a[2] + b[2] = w[2] /\ (a[2] > 0 => a[1] = w[1]) /\ (a[2] > 0 /\ b[2] > 0 => b[1] = a[1] + a[2])
RECURSIVE SumTo(_, _, _)
SumTo(m, c, k) == IF k = 0 THEN 0 ELSE SumTo(m, c, k - 1) + ChunkOf(m, c, k - 1)[2]
ChunksCover == SumTo(n, Chunk, n \div Chunk + 1) = n
Inside == \A s \in Times(Starts), d \in Times(Durs) :
            LET a == Span(n, s, Plus(s, d, P)) IN a[1] + a[2] <= n /\ a[2] >= 0
MCView == <<n, iters, Len(hist)>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([n |-> n, ops |-> hist]))
=============================================================================
