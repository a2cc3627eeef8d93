---------------------------- MODULE VariableRate ----------------------------
(* C05.  A variable-rate series is a bag of (span, datum) entries, held in  *)
(* order of their starts.  Entries are [s, d, x]; x identifies the datum.   *)
(* ser is the series, the program builds, joins, queries, cuts and stores.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

EndOf(a) == a.s + a.d
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i].s <= q[i + 1].s
Elems(q) == {q[i] : i \in DOMAIN q}
Count(q, e) == Cardinality({i \in DOMAIN q : q[i] = e})
SameBag(p, q) == Len(p) = Len(q) /\ \A e \in Elems(p) \cup Elems(q) : Count(p, e) = Count(q, e)
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> \/ x.s < Head(q).s THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)
RECURSIVE Build(_)
Build(q) == IF q = <<>> THEN <<>> ELSE Insert(Build(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])

\* a query is [s, he, d]: open ended when ~he
Overlaps(e, r) == /\ EndOf(e) > r.s
                  /\ r.he => e.s < r.s + r.d
Query(q, r) == SelectSeq(q, LAMBDA e : Overlaps(e, r))
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
SpanOf(q) == IF q = <<>> THEN [s |-> 0, d |-> 0]
    ELSE LET lo == MinOf({e.s : e \in Elems(q)}) hi == MaxOf({EndOf(e) : e \in Elems(q)})
         IN [s |-> lo, d |-> hi - lo]

CONSTANTS Starts, Lens, Size, Queries, Depth
StartsA == 0..3
QueriesA == {[s |-> a, he |-> TRUE, d |-> b] : a \in {0, 1, 2, 4}, b \in {1, 2, 4}}
            \cup {[s |-> a, he |-> FALSE, d |-> 0] : a \in {0, 2, 3}}
QueriesB == {[s |-> 1, he |-> TRUE, d |-> 1], [s |-> 1, he |-> FALSE, d |-> 0]}
VARIABLES ser, hist
vars == <<ser, hist>>
Spans == [s : Starts, d : Lens]
Lists(base) == UNION {{[i \in 1..n |-> [s |-> f[i].s, d |-> f[i].d, x |-> base + i]] : f \in [1..n -> Spans]} : n \in 0..Size}
Init == ser = <<>> /\ hist = <<>>
MkSeries(q) == ser' = Build(q) /\ hist' = <<[op |-> "build", q |-> q]>>
Concat(q) == ser' = Build(ser \o q) /\ hist' = Append(hist, [op |-> "concat", q |-> q])
Ask(r) == ser' = Query(ser, r) /\ hist' = Append(hist, [op |-> "query", r |-> r])
Cut(i, j) == ser' = SubSeq(ser, i + 1, j) /\ hist' = Append(hist, [op |-> "cut", i |-> i, j |-> j])
Store == ser' = ser /\ hist' = Append(hist, [op |-> "store"])
Next == /\ Len(hist) < Depth
        /\ \/ hist = <<>> /\ \E q \in Lists(0) : MkSeries(q)
           \/ /\ hist # <<>>
              /\ \/ \E q \in {z \in Lists(10) : Len(z) = 1} : Concat(q)
                 \/ \E r \in Queries : Ask(r)
                 \/ \E i, j \in 0..Len(ser) : i <= j /\ Cut(i, j)
                 \/ Store
Spec == Init /\ [][Next]_vars

AlwaysSorted == Sorted(ser)
\* a query answered from the sorted list loses nothing that overlaps and the
\* span of the answer meets the query
QueryExact == \A r \in Queries :
    /\ Sorted(Query(ser, r))
    /\ \A e \in Elems(ser) : Overlaps(e, r) <=> Count(Query(ser, r), e) = Count(ser, e)
    /\ Query(Query(ser, r), r) = Query(ser, r)
SpanCovers == \A e \in Elems(ser) : SpanOf(ser).s <= e.s /\ EndOf(e) <= EndOf(SpanOf(ser))
\* asking for the whole span gives the whole series
SpanIsAll == ser # <<>> => Query(ser, [s |-> SpanOf(ser).s, he |-> TRUE, d |-> SpanOf(ser).d]) = ser
MCView == <<ser, Len(hist)>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
