------------------------------- MODULE Listing -------------------------------
(* C32.  A source lists its items on pages; some of them are wanted.  Walkers *)
(* go through it independently of each other: each is given every wanted      *)
(* item once, in order, but no more than it asked for, and then the end.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Walkers, Sizes, MaxPages, Limits, Depth
VARIABLES pages,  \* the pages: sequences of BOOLEAN (is the item wanted?)
          limit,  \* how many are asked for at most
          at,     \* where every walker is: [p, k] (k items of page p are behind it), or p = 0
          out,    \* what every walker was given
          over,   \* walkers that were told that there is nothing more
          hist
vars == <<pages, limit, at, out, over, hist>>
Bools(S) == UNION {[1..n -> BOOLEAN] : n \in S}
Min(a, b) == IF a < b THEN a ELSE b
\* everything that is wanted, as <<page, index>>
RECURSIVE Of(_, _, _), All(_, _)
Of(pg, p, k) == IF k > Len(pg[p]) THEN <<>> ELSE (IF pg[p][k] THEN <<<<p, k>>>> ELSE <<>>) \o Of(pg, p, k + 1)
All(pg, p) == IF p > Len(pg) THEN <<>> ELSE Of(pg, p, 1) \o All(pg, p + 1)
Whole(pg, n) == SubSeq(All(pg, 1), 1, Min(n, Len(All(pg, 1))))
Init == /\ \E n \in 1..MaxPages : pages \in [1..n -> Bools(Sizes)]
        /\ limit \in Limits
        /\ at = [w \in Walkers |-> [p |-> 0, k |-> 0]] /\ out = [w \in Walkers |-> <<>>] /\ over = {} /\ hist = <<>>
Note(o, w) == hist' = Append(hist, [op |-> o, w |-> w])
\* a walker begins, or begins again
Begin == /\ Len(hist) < Depth
         /\ \E w \in Walkers : /\ at[w].p = 0 \/ out[w] # <<>> \/ w \in over
                               /\ at' = [at EXCEPT ![w] = [p |-> 1, k |-> 0]] /\ out' = [out EXCEPT ![w] = <<>>]
                               /\ over' = over \ {w} /\ Note("begin", w)
         /\ UNCHANGED <<pages, limit>>
Fresh(w) == at[w].p > 0 /\ w \notin over
More(w) == Fresh(w) /\ Len(out[w]) < limit
Here(w) == at[w].k < Len(pages[at[w].p])
Turn == \E w \in Walkers : /\ More(w) /\ ~Here(w) /\ at[w].p < Len(pages)
                           /\ at' = [at EXCEPT ![w] = [p |-> @.p + 1, k |-> 0]]
                           /\ UNCHANGED <<pages, limit, out, over, hist>>
Skip == \E w \in Walkers : /\ More(w) /\ Here(w) /\ ~pages[at[w].p][at[w].k + 1]
                           /\ at' = [at EXCEPT ![w].k = @ + 1]
                           /\ UNCHANGED <<pages, limit, out, over, hist>>
Give == /\ Len(hist) < Depth
        /\ \E w \in Walkers : /\ More(w) /\ Here(w) /\ pages[at[w].p][at[w].k + 1]
                              /\ at' = [at EXCEPT ![w].k = @ + 1]
                              /\ out' = [out EXCEPT ![w] = Append(@, <<at[w].p, at[w].k + 1>>)]
                              /\ Note("ask", w)
        /\ UNCHANGED <<pages, limit, over>>
End == /\ Len(hist) < Depth
       /\ \E w \in Walkers : /\ Fresh(w)
                             /\ Len(out[w]) = limit \/ (~Here(w) /\ at[w].p = Len(pages))
                             /\ over' = over \cup {w} /\ Note("ask", w)
       /\ UNCHANGED <<pages, limit, at, out>>
Next == Begin \/ Turn \/ Skip \/ Give \/ End
Spec == Init /\ [][Next]_vars
\* without anyone beginning again, every walk comes to its end
Going == Turn \/ Skip \/ Give \/ End
LiveSpec == Init /\ [][(Begin /\ \E w \in Walkers : at[w].p = 0 /\ at'[w].p = 1) \/ Going]_vars /\ WF_vars(Going)
MCView == <<pages, limit, at, out, over, Len(hist)>>
InOrder == \A w \in Walkers : LET W == Whole(pages, limit) IN
                              Len(out[w]) <= Len(W) /\ out[w] = SubSeq(W, 1, Len(out[w]))
Complete == \A w \in over : out[w] = Whole(pages, limit)
Ends == \A w \in Walkers : (at[w].p > 0) ~> (w \in over \/ Len(hist) = Depth)
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson([pages |-> pages, limit |-> limit, ops |-> hist]))
=============================================================================
