---------------------------- MODULE NearestSearch ----------------------------
(* C15.  Searching for the nearest of a set of codes.  The codes may be       *)
(* scored in one go or in chunks by several threads; the k best are           *)
(* selected in any order, then possibly sorted.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise
CONSTANTS Codes, Ks, Threads, Most
VARIABLES stored, query, k, sorted, threads, scores, result, hist
vars == <<stored, query, k, sorted, threads, scores, result, hist>>
OnesOf == [n \in 0..255 |-> (n % 2) + ((n \div 2) % 2) + ((n \div 4) % 2) + ((n \div 8) % 2) + ((n \div 16) % 2)
                           + ((n \div 32) % 2) + ((n \div 64) % 2) + (n \div 128)]
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the distance between two codes (sequences of bytes) or vectors of integers
Dist(metric, a, b) ==
    IF metric = "bits" THEN SumSeq([i \in DOMAIN a |-> OnesOf[a[i] ^^ b[i]]], Len(a))
    ELSE IF metric = "euclidean" THEN SumSeq([i \in DOMAIN a |-> (a[i] - b[i]) * (a[i] - b[i])], Len(a))
    ELSE IF metric = "cityblock" THEN SumSeq([i \in DOMAIN a |-> Abs(a[i] - b[i])], Len(a))
    ELSE IF metric = "chebyshev" THEN MaxOf({0} \cup {Abs(a[i] - b[i]) : i \in DOMAIN a})
    ELSE SumSeq([i \in DOMAIN a |-> IF a[i] = b[i] THEN 0 ELSE 1], Len(a))
Min(a, b) == IF a < b THEN a ELSE b
SetOf(s) == {s[i] : i \in DOMAIN s}
\* d: distances of all entries; got: their indices as returned
Right(d, got, n) == Len(got) = Min(n, Len(d)) /\ SetOf(got) \subseteq DOMAIN d /\ Cardinality(SetOf(got)) = Len(got)
Nearest(d, got) == \A i \in DOMAIN d : i \in SetOf(got) \/ \A j \in SetOf(got) : d[j] <= d[i]
InOrder(d, got) == \A i \in 1..(Len(got) - 1) : d[got[i]] <= d[got[i + 1]]
\* what one search must say
Verdict(d, got, n, srt) ==
    IF Len(got) # Min(n, Len(d)) THEN "the number of results is wrong"
    ELSE IF ~(SetOf(got) \subseteq DOMAIN d) THEN "a result is not one of the stored entries"
    ELSE IF Cardinality(SetOf(got)) # Len(got) THEN "an entry is returned twice"
    ELSE IF ~Nearest(d, got) THEN "a nearer entry is left out"
    ELSE IF srt /\ ~InOrder(d, got) THEN "results are not in order of distance"
    ELSE ""
Distances == [i \in DOMAIN stored |-> Dist("bits", <<stored[i]>>, <<query>>)]
\* scoring chunk by chunk
RECURSIVE Chunked(_, _)
Chunked(s, n) == IF s = <<>> THEN <<>>
    ELSE [i \in 1..Min(n, Len(s)) |-> Dist("bits", <<s[i]>>, <<query>>)] \o Chunked(SubSeq(s, n + 1, Len(s)), n)
ChunkSize == IF Len(stored) \div threads < 1 THEN 1 ELSE Len(stored) \div threads
Init == /\ stored = <<>> /\ query \in Codes /\ k \in Ks /\ sorted \in BOOLEAN /\ threads \in Threads
        /\ scores = <<>> /\ result = <<>> /\ hist = 0
Add(x) == /\ hist = 0 /\ Len(stored) < Most /\ stored' = Append(stored, x) /\ UNCHANGED <<scores, result, hist>>
Score == /\ hist = 0 /\ scores' = Chunked(stored, ChunkSize) /\ hist' = 1 /\ UNCHANGED <<stored, result>>
\* select: any sequence of the right number such that nothing left out is nearer, sorted if need be
Select == /\ hist = 1 /\ hist' = 2
          /\ \E s \in [1..Min(k, Len(stored)) -> DOMAIN stored] :
                /\ \A i, j \in DOMAIN s : i # j => s[i] # s[j]
                /\ \A i \in DOMAIN s : \A j \in DOMAIN scores : j \in SetOf(s) \/ scores[s[i]] <= scores[j]
                /\ sorted => \A i \in 1..(Len(s) - 1) : scores[s[i]] <= scores[s[i + 1]]
                /\ result' = s
          /\ UNCHANGED <<stored, scores>>
Next == (\/ \E x \in Codes : Add(x)
         \/ Score \/ Select) /\ UNCHANGED <<query, k, sorted, threads>>
Spec == Init /\ [][Next]_vars
ChunkingIrrelevant == hist >= 1 => scores = Distances
Correct == hist = 2 => Verdict(Distances, result, k, sorted) = ""
FindsStored == (hist = 2 /\ sorted /\ k > 0 /\ query \in SetOf(stored)) => stored[result[1]] = query
Metric == (hist = 0 /\ stored = <<>>) => \A a, b, x \in Codes :
            /\ Dist("bits", <<a>>, <<b>>) = Dist("bits", <<b>>, <<a>>)
            /\ (Dist("bits", <<a>>, <<b>>) = 0) = (a = b)
            /\ Dist("bits", <<a>>, <<x>>) <= Dist("bits", <<a>>, <<b>>) + Dist("bits", <<b>>, <<x>>)
Emit == (hist = 1 /\ stored # <<>>) => PrintT("GEN " \o ToJson([stored |-> stored, query |-> query, k |-> k, sorted |-> sorted, threads |-> threads]))
=============================================================================
