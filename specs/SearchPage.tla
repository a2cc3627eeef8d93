----------------------------- MODULE SearchPage -----------------------------
(* C38.  A search application over an index that grows.  A visitor asks for  *)
(* a random page, for a code, or follows the link to an earlier page again;  *)
(* a page shows its query and the entries that are nearest to it.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise
CONSTANTS Codes, Docs, Most, N, Depth
VARIABLES entries, \* of <<document, frame, code>>
          pages,   \* of [q, hits]: what the visitor has seen
          hist
vars == <<entries, pages, hist>>
RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN 0 ELSE (n % 2) + Ones(n \div 2)
Dist(a, b) == Ones(a ^^ b)
Min(a, b) == IF a < b THEN a ELSE b
SetOf(s) == {s[i] : i \in DOMAIN s}
\* what is wrong with a set of hits, out of these entries, nearest to q
Wrong(all, q, n, hits) ==
    IF \E h \in hits : h \notin SetOf(all) THEN "a hit is not in the index"
    ELSE IF Cardinality(hits) # Min(n, Len(all)) THEN "another number of hits"
    ELSE IF \E h \in hits : \E x \in SetOf(all) \ hits : Dist(x[3], q) < Dist(h[3], q) THEN "a nearer entry is left out"
    ELSE ""
Answers(all, q, n) == {hits \in SUBSET SetOf(all) : Wrong(all, q, n, hits) = ""}
Init == entries = <<>> /\ pages = <<>> /\ hist = <<>>
Frames(d) == Cardinality({i \in DOMAIN entries : entries[i][1] = d})
Add(d, c) == /\ Len(hist) < Depth /\ Len(entries) < Most
             /\ entries' = Append(entries, <<d, Frames(d), c>>)
             /\ hist' = Append(hist, [op |-> "add", doc |-> d, code |-> c, page |-> 0]) /\ UNCHANGED pages
Show(q, op) == /\ \E hits \in Answers(entries, q, N) : pages' = Append(pages, [q |-> q, hits |-> hits])
               /\ hist' = Append(hist, op) /\ UNCHANGED entries
Random == /\ Len(hist) < Depth /\ entries # <<>>
          /\ \E x \in SetOf(entries) : Show(x[3], [op |-> "random", doc |-> 0, code |-> 0, page |-> 0])
Ask(q) == /\ Len(hist) < Depth /\ entries # <<>>
          /\ Show(q, [op |-> "ask", doc |-> 0, code |-> q, page |-> 0])
Follow(i) == /\ Len(hist) < Depth /\ i \in DOMAIN pages
             /\ Show(pages[i].q, [op |-> "follow", doc |-> 0, code |-> 0, page |-> i])
Next == \/ \E d \in Docs, c \in Codes : Add(d, c)
        \/ Random
        \/ \E q \in Codes : Ask(q)
        \/ \E i \in 1..Depth : Follow(i)
Spec == Init /\ [][Next]_vars
MCView == <<entries, pages, Len(hist)>>
Worst(p) == LET D == {Dist(h[3], p.q) : h \in p.hits} IN IF D = {} THEN 0 ELSE CHOOSE d \in D : \A g \in D : g <= d
\* the link to a page leads to a page that is at least as near
NeverWorse == \A i, j \in DOMAIN pages : (i < j /\ pages[i].q = pages[j].q) =>
                 /\ Cardinality(pages[i].hits) <= Cardinality(pages[j].hits)
                 /\ (Cardinality(pages[i].hits) = N => Worst(pages[j]) <= Worst(pages[i]))
\* what is in the index is found by its own code
Finds == \A j \in DOMAIN pages : (/\ hist # <<>> /\ hist[Len(hist)].op # "add" /\ j = Len(pages)
                                  /\ \E x \in SetOf(entries) : x[3] = pages[j].q) => \E h \in pages[j].hits : h[3] = pages[j].q
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
