---------------------------- MODULE StreamNodes ----------------------------
(* C08.  Nodes of a processing graph that consume streams of rows.  Sources  *)
(* deliver their rows in chunks, in any interleaving; source i delivers rows *)
(* 1..len[i] and then ends.  Row k of source i is the pair <<i, k>>.          *)
(*   merge   combines row k of every source                                   *)
(*   memory  (transience, flux) looks at row k and the row before it          *)
(*   rowwise (slice, sum, max, centroid, flatness, complex domain, binarize)  *)
(*   pooled  source 1 carries the time series, source 2 the spans; waits for  *)
(*           the end of both                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Min2(a, b) == IF a < b THEN a ELSE b
MinSeq(q) == CHOOSE m \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : m <= q[i]
\* what the finished inputs have to give
Whole(kind, lens) ==
    CASE kind = "merge" -> [k \in 1..MinSeq(lens) |-> [i \in DOMAIN lens |-> <<i, k>>]]
      [] kind = "memory" -> [k \in 1..lens[1] |-> <<<<1, IF k = 1 THEN 1 ELSE k - 1>>, <<1, k>>>>]
      [] kind = "rowwise" -> [k \in 1..lens[1] |-> <<<<1, k>>>>]
      [] kind = "pooled" -> [k \in 1..lens[2] |-> <<<<2, k>>, <<1, lens[1]>>>>]

CONSTANTS Kinds, MaxLen, Chunks
VARIABLES kind, len, fed, ended, cache, emitted, sched
svars == <<kind, len, fed, ended, cache, emitted, sched>>
NSrc(k) == IF k = "merge" THEN {2, 3} ELSE IF k = "pooled" THEN {2} ELSE {1}
SInit == /\ kind \in Kinds
         /\ \E n \in NSrc(kind) : len \in [1..n -> 1..MaxLen]
         /\ fed = [i \in DOMAIN len |-> 0] /\ ended = [i \in DOMAIN len |-> FALSE]
         /\ cache = [i \in DOMAIN len |-> <<>>] /\ emitted = <<>> /\ sched = <<>>
Rows(i, m) == [j \in 1..m |-> <<i, fed[i] + j>>]
Drop(q, n) == SubSeq(q, n + 1, Len(q))
AllEnded(e) == \A i \in DOMAIN e : e[i]
\* what the node does with what it holds
React(c, e) ==
    CASE kind = "merge" ->
            LET n == MinSeq([i \in DOMAIN c |-> Len(c[i])]) IN
            [out |-> [k \in 1..n |-> [i \in DOMAIN c |-> c[i][k]]], keep |-> [i \in DOMAIN c |-> Drop(c[i], n)]]
      [] kind = "memory" ->      \* keeps the last row it has seen
            LET q == c[1] IN
            IF q = <<>> THEN [out |-> <<>>, keep |-> c]
            ELSE IF emitted = <<>>
            THEN [out |-> [k \in DOMAIN q |-> <<q[IF k = 1 THEN 1 ELSE k - 1], q[k]>>], keep |-> <<<<q[Len(q)]>>>>]
            ELSE [out |-> [k \in 1..(Len(q) - 1) |-> <<q[k], q[k + 1]>>], keep |-> <<<<q[Len(q)]>>>>]
      [] kind = "rowwise" -> [out |-> [k \in DOMAIN c[1] |-> <<c[1][k]>>], keep |-> <<<<>>>>]
      [] kind = "pooled" ->
            IF AllEnded(e) THEN [out |-> [k \in DOMAIN c[2] |-> <<c[2][k], c[1][Len(c[1])]>>], keep |-> <<<<>>, <<>>>>]
            ELSE [out |-> <<>>, keep |-> c]
Deliver(i, m) ==
    /\ ~ended[i] /\ fed[i] + m <= len[i]
    /\ LET c == [cache EXCEPT ![i] = @ \o Rows(i, m)] r == React(c, ended) IN
        cache' = r.keep /\ emitted' = emitted \o r.out
    /\ fed' = [fed EXCEPT ![i] = @ + m] /\ sched' = Append(sched, <<i, m>>)
    /\ UNCHANGED <<kind, len, ended>>
End1(i) ==
    /\ ~ended[i] /\ fed[i] = len[i]
    /\ ended' = [ended EXCEPT ![i] = TRUE]
    /\ LET r == React(cache, ended') IN cache' = r.keep /\ emitted' = emitted \o r.out
    /\ sched' = Append(sched, <<i, 0>>)
    /\ UNCHANGED <<kind, len, fed>>
SNext == \E i \in DOMAIN len : (\E m \in Chunks : Deliver(i, m)) \/ End1(i)
SSpec == SInit /\ [][SNext]_svars
InOrderAligned == \A k \in DOMAIN emitted : emitted[k] = Whole(kind, len)[k]
CompleteAtEnd == AllEnded(ended) => emitted = Whole(kind, len)
NothingEarly == kind = "pooled" /\ ~AllEnded(ended) => emitted = <<>>
SView == <<kind, len, fed, ended, cache, emitted>>
EmitGen == AllEnded(ended) => PrintT("GEN " \o ToJson([kind |-> kind, len |-> len, sched |-> sched]))
=============================================================================
