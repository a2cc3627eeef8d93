--------------------------- MODULE BatchTransform ---------------------------
(* C40.  Transforms of batches.  Every item of a batch is a vector of        *)
(* coefficients, ordered by frequency.  Resampling cuts off or makes room at *)
(* the end, splitting gives every coefficient to the band it is in, and      *)
(* leaves it where it was, so that the bands sum up to what was split.       *)
(* Everything else a batch is put through treats every item, and every      *)
(* frame or sample, by itself.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Items, Chunks, Depth
VARIABLES vec,    \* the coefficients of an item, as far as they are left
          full,   \* coefficients that were there in the beginning
          bands,  \* what it was split into
          items,  \* the items of a batch
          out,    \* what a network made of it
          hist
vars == <<vec, full, bands, items, out, hist>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Resized(v, m, lo, hi) == [j \in 1..m |-> IF j <= Len(v) /\ ~(j > lo /\ j <= hi) THEN v[j] ELSE 0]
\* stops are the numbers of coefficients up to which the bands reach
Split(v, stops) == [b \in DOMAIN stops |-> [j \in 1..stops[b] |-> IF b > 1 /\ j <= stops[b - 1] THEN 0 ELSE v[j]]]
RECURSIVE SumAt(_, _)
SumAt(bs, j) == IF bs = <<>> THEN 0 ELSE (IF j <= Len(Head(bs)) THEN Head(bs)[j] ELSE 0) + SumAt(Tail(bs), j)
Merged(bs) == [j \in 1..Len(bs[Len(bs)]) |-> SumAt(bs, j)]
\* the frames of a sequence: what is left over at its end is in none
Frames(v, size, step) == [f \in 1..(IF Len(v) < size THEN 0 ELSE (Len(v) - size) \div step + 1) |-> SubSeq(v, (f - 1) * step + 1, (f - 1) * step + size)]
RECURSIVE Chunked(_, _)
Chunked(s, c) == IF s = <<>> THEN <<>> ELSE <<SubSeq(s, 1, Min(c, Len(s)))>> \o Chunked(SubSeq(s, c + 1, Len(s)), c)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Note(op, a) == Len(hist) < Depth /\ hist' = Append(hist, [op |-> op, a |-> a])
Init == vec = <<>> /\ full = <<>> /\ bands = <<>> /\ items = <<>> /\ out = <<>> /\ hist = <<>>
Load == \E n \in Sizes : /\ Note("load", <<n>>)
                         /\ vec' = [j \in 1..n |-> j] /\ full' = vec' /\ bands' = <<>> /\ UNCHANGED <<items, out>>
Resample == /\ vec # <<>> /\ bands = <<>>
            /\ \E m \in Sizes : \E lo, hi \in 0..2 : /\ lo <= hi /\ Note("resample", <<m, lo, hi>>)
                                                     /\ vec' = Resized(vec, m, lo, hi)
            /\ UNCHANGED <<full, bands, items, out>>
Divide == /\ vec # <<>> /\ bands = <<>>
          /\ \E s \in UNION {[1..k -> 1..Len(vec)] : k \in 1..2} :
                /\ \A i, j \in DOMAIN s : i < j => s[i] < s[j]
                /\ Note("split", s) /\ bands' = Split(vec, s)
          /\ UNCHANGED <<vec, full, items, out>>
Unite == /\ bands # <<>> /\ Note("merge", <<>>)
         /\ vec' = Merged(bands) /\ bands' = <<>> /\ UNCHANGED <<full, items, out>>
Frame == /\ vec # <<>> /\ \E n \in Sizes : \E s \in 1..2 : Note("frames", <<n, s>>)
         /\ UNCHANGED <<vec, full, bands, items, out>>
Apply == /\ \E n \in Items : \E c \in Chunks : /\ Note("apply", <<n, c>>)
                                               /\ items' = [i \in 1..n |-> i] /\ out' = Flat(Chunked(items', c))
         /\ UNCHANGED <<vec, full, bands>>
Next == Load \/ Resample \/ Divide \/ Unite \/ Frame \/ Apply
Spec == Init /\ [][Next]_vars
MCView == <<vec, full, bands, items, out, Len(hist)>>
\* a coefficient is never anywhere but in its place
InPlace == /\ \A j \in DOMAIN vec : vec[j] \in {0, j} /\ (j > Len(full) => vec[j] = 0)
           /\ \A b \in DOMAIN bands : \A j \in DOMAIN bands[b] : bands[b][j] \in {0, j}
Whole == bands # <<>> => Merged(bands) = SubSeq(vec, 1, Len(bands[Len(bands)]))
\* no coefficient is in two bands
Apart == \A a, b \in DOMAIN bands : a # b => \A j \in DOMAIN bands[a] \cap DOMAIN bands[b] : bands[a][j] = 0 \/ bands[b][j] = 0
\* making room and cutting it off again changes nothing
Undone == \A m \in Sizes : m >= Len(vec) => Resized(Resized(vec, m, 0, 0), Len(vec), 0, 0) = vec
\* chunks make no difference
Same == out = items
\* frames that don't leave gaps hold everything up to the last one
Covered == \A n \in Sizes : \A s \in 1..n : LET F == Frames(vec, n, s) IN
              F # <<>> => UNION {{F[f][j] : j \in 1..n} : f \in DOMAIN F} = {vec[j] : j \in 1..((Len(F) - 1) * s + n)}
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
