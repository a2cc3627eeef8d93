----------------------------- MODULE TimeSlicing -----------------------------
(* C01.  An array whose axis is a constant-rate time axis, and the slices    *)
(* a client takes from it / assigns through it.  Times are integers (ticks); *)
(* sample i of an axis with period f and sample duration d occupies          *)
(* [i*f, i*f + d).                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)

\* ---- what the property says ------------------------------------------------
Overlapping(n, f, d, s, e) ==
    {i \in 0..(n - 1) : i * f + d > s /\ i * f < e}

\* Overlap so small (half a percent of a period) that it may be ignored.
Marginal(f, i, e) == (e - i * f) * 200 <= f

End(n, f, d) == n * f + (d - f)

\* A request is [kind, hs, s, he, e]: kind "ts" carries start/duration, kind
\* "slice" carries start/stop where negative values count from the end.
Start(n, f, d, r) ==
    IF ~r.hs THEN 0
    ELSE IF r.kind = "slice" /\ r.s < 0 THEN End(n, f, d) + r.s ELSE r.s
Stop(n, f, d, r) ==
    IF ~r.he THEN End(n, f, d)
    ELSE IF r.kind = "slice"
         THEN IF r.e < 0 THEN End(n, f, d) + r.e ELSE r.e
         ELSE Start(n, f, d, r) + r.e

Wanted(n, f, d, r) ==
    Overlapping(n, f, d, Start(n, f, d, r), Stop(n, f, d, r))

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Pick(arr, S) == IF S = {} THEN <<>> ELSE SubSeq(arr, MinOf(S) + 1, MaxOf(S) + 1)

Exact(arr, f, d, r) == Pick(arr, Wanted(Len(arr), f, d, r))

\* the results the property allows
Allowed(arr, f, d, r) ==
    LET n == Len(arr)
        S == Wanted(n, f, d, r)
        e == Stop(n, f, d, r)
    IN  {Pick(arr, S)} \cup
        (IF S # {} /\ Marginal(f, MaxOf(S), e)
         THEN {Pick(arr, S \ {MaxOf(S)})} ELSE {})

AfterSet(arr, f, d, r, v) ==
    LET n == Len(arr)
        S == Wanted(n, f, d, r)
        e == Stop(n, f, d, r)
        Put(T) == [j \in 1..n |-> IF (j - 1) \in T THEN v ELSE arr[j]]
    IN  {Put(S)} \cup
        (IF S # {} /\ Marginal(f, MaxOf(S), e)
         THEN {Put(S \ {MaxOf(S)})} ELSE {})

\* ---- the shape of the implementation: closed-form integer bounds -----------
LoIndex(f, d, s) == Max(0, (s - (d - f)) \div f)
HiIndex(f, e) == Max(0, CeilDiv(e, f))
ClosedForm(n, f, d, r) ==
    {i \in 0..(n - 1) : /\ i >= LoIndex(f, d, Start(n, f, d, r))
                        /\ i < HiIndex(f, Stop(n, f, d, r))}

\* ---- the state machine ------------------------------------------------------
DursA == {-1, 0, 1, 4}
DursB == {-1, 0, 3}
TimesA == {-7, -3, -2, 0, 1, 2, 3, 4, 6, 11}
TimesB == {-3, 0, 1, 2, 5, 7}
CONSTANTS Lengths, Freqs, Durs, Times, Depth
VARIABLES f, d, arr, orig, hist
vars == <<f, d, arr, orig, hist>>

Requests ==
    [kind : {"ts"}, hs : {TRUE}, s : Times, he : {TRUE}, e : {t \in Times : t >= 0}]
    \cup [kind : {"ts"}, hs : {TRUE}, s : Times, he : {FALSE}, e : {0}]
    \cup [kind : {"slice"}, hs : {TRUE}, s : Times, he : {FALSE}, e : {0}]
    \cup [kind : {"slice"}, hs : {FALSE}, s : {0}, he : {TRUE}, e : Times]
    \cup [kind : {"slice"}, hs : {TRUE}, s : Times, he : {TRUE}, e : Times]

Legal(r) == Start(Len(arr), f, d, r) <= Stop(Len(arr), f, d, r)

Init == /\ \E n \in Lengths : /\ orig = [i \in 1..n |-> i]
                              /\ arr = orig
        /\ f \in Freqs /\ d \in {f + x : x \in Durs}
        /\ hist = <<>>

Get(r) == /\ Legal(r)
          /\ arr' = Exact(arr, f, d, r)
          /\ hist' = Append(hist, [op |-> "get", r |-> r])
          /\ UNCHANGED <<f, d, orig>>

Next == Len(hist) < Depth /\ \E r \in Requests : Get(r)
Spec == Init /\ [][Next]_vars

\* ---- invariants ---------------------------------------------------------------
\* slices only ever remove from the two ends
Contiguous == arr = <<>> \/ \E i \in 1..Len(orig) :
                    \E j \in i..Len(orig) : arr = SubSeq(orig, i, j)
\* the closed form used by implementations computes exactly the overlap set
ClosedFormExact == \A r \in Requests :
    Legal(r) => ClosedForm(Len(arr), f, d, r) = Wanted(Len(arr), f, d, r)
\* a wider request never returns less; a full request returns everything
Monotone == \A s \in Times : \A e \in Times : \A e2 \in Times :
    (s <= e /\ e <= e2) =>
        Overlapping(Len(arr), f, d, s, e) \subseteq Overlapping(Len(arr), f, d, s, e2)
FullIsIdentity ==
    Exact(arr, f, d, [kind |-> "slice", hs |-> FALSE, s |-> 0, he |-> FALSE, e |-> 0]) = arr
\* disjoint cover: cutting at any time loses no sample
CutLosesNothing == \A t \in Times : t >= 0 =>
    Overlapping(Len(arr), f, d, 0, t) \cup Overlapping(Len(arr), f, d, t, End(Len(arr), f, d))
        = 0..(Len(arr) - 1)

MCView == <<f, d, arr, orig, Len(hist)>>

\* ---- behaviours for replay into the implementation ------------------------------
Emit == Len(hist) = Depth =>
    PrintT("GEN " \o ToJson([n |-> Len(orig), f |-> f, d |-> d, ops |-> hist]))
=============================================================================
