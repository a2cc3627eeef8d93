---------------------------- MODULE TimeAlgebra ----------------------------
(* C04.  Spans of time are half-open intervals [s, s+d) of an integer time  *)
(* line; sample rates are (period, duration) pairs.  The state machine is a *)
(* program that shifts the current span and intersects it with others;      *)
(* every operator and every query of the implementation is judged against   *)
(* the definitions below.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

MaxOf2(a, b) == IF a < b THEN b ELSE a
MinOf2(a, b) == IF a < b THEN a ELSE b

\* ---- spans ------------------------------------------------------------------
EndOf(a) == a.s + a.d
Pts(a) == {t \in a.s..EndOf(a) : t < EndOf(a)}
Shift(a, t) == [s |-> a.s + t, d |-> a.d]
Shared(a, b) == MaxOf2(0, MinOf2(EndOf(a), EndOf(b)) - MaxOf2(a.s, b.s))
\* the interval two spans share; one that is empty has no particular start
IsAnd(r, a, b) == /\ r.d = Shared(a, b)
                  /\ r.d > 0 => r.s = MaxOf2(a.s, b.s)
And(a, b) == [s |-> MaxOf2(a.s, b.s), d |-> Shared(a, b)]
HasPoint(a, t) == a.s < t /\ t < EndOf(a)
HasSpan(a, b) == b.s > a.s /\ EndOf(b) < EndOf(a)
Same(a, b) == a.s = b.s /\ a.d = b.d
Cmp(x, y) == [lt |-> x < y, gt |-> x > y, le |-> x <= y, ge |-> x >= y]

\* consecutive spans between timestamps given in any order (repeats included)
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> \/ x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN <<>> ELSE Insert(Sort(Tail(q)), Head(q))
Slices(q) == LET z == Sort(q) IN
    [i \in 1..(IF Len(z) = 0 THEN 0 ELSE Len(z) - 1) |-> [s |-> z[i], d |-> z[i + 1] - z[i]]]

\* ---- sample rates -------------------------------------------------------------
\* windows of w samples taken every h samples: a window lasts from the first
\* sample's start to the last sample's end
Windowed(r, h, w) == [f |-> r.f * h, d |-> (w - 1) * r.f + r.d]
\* how many samples of rate r a step and a window of rate q are
Step(q, r) == q.f \div r.f
WinSamples(q, r) == (q.d - (r.d - r.f)) \div r.f
\* the time covered by n samples
Span(r, n) == IF n = 0 THEN 0 ELSE (n - 1) * r.f + r.d

\* ---- the state machine ----------------------------------------------------------
StartsA == {-2, 0, 1, 2, 3, 5}
StartsB == {-3, 0, 1, 4}
CONSTANTS Starts, Lens, Depth
VARIABLES cur, hist
vars == <<cur, hist>>
Spans == [s : Starts, d : Lens]
Init == cur \in Spans /\ hist = <<>> 
DoShift(t) == cur' = Shift(cur, t) /\ hist' = Append(hist, [op |-> "add", a |-> cur, t |-> t])
DoAnd(b) == cur' = And(cur, b) /\ hist' = Append(hist, [op |-> "and", a |-> cur, b |-> b])
Next == /\ Len(hist) < Depth
        /\ \/ \E t \in Starts : DoShift(t)
           \/ \E b \in Spans : DoAnd(b)
Spec == Init /\ [][Next]_vars

\* ---- the algebra, over the reachable spans ------------------------------------
AndIsIntersection == \A b \in Spans :
    /\ Cardinality(Pts(cur) \cap Pts(b)) = Shared(cur, b)
    /\ Shared(cur, b) > 0 => Pts(And(cur, b)) = Pts(cur) \cap Pts(b)
AndCommutes == \A b \in Spans : And(cur, b) = And(b, cur)
AndAssociates == \A b, c \in Spans :
    LET l == And(And(cur, b), c) r == And(cur, And(b, c)) IN
        l.d = r.d /\ (l.d > 0 => l = r)
AndIdempotent == And(cur, cur) = cur
ShiftKeeps == \A b \in Spans, t \in Starts :
    /\ And(Shift(cur, t), Shift(b, t)) = Shift(And(cur, b), t)
    /\ HasSpan(cur, b) = HasSpan(Shift(cur, t), Shift(b, t))
ContainedIsShared == \A b \in Spans : HasSpan(cur, b) => And(cur, b) = b
SlicesTile == \A q \in UNION {[1..n -> Starts] : n \in 1..3} :
    LET z == Slices(q) IN
        /\ \A i \in 1..(Len(z) - 1) : EndOf(z[i]) = z[i + 1].s
        /\ Len(z) = Len(q) - 1
WindowRoundTrip == \A f \in 1..3, x \in 0..2, h \in 1..3, w \in 1..3 :
    LET r == [f |-> f, d |-> f + x] q == Windowed(r, h, w) IN
        /\ Step(q, r) = h /\ WinSamples(q, r) = w
        /\ q.d = Span(r, w)
        \* nesting: windows of windows
        /\ Windowed(q, 2, 3).d = Span(r, (3 - 1) * h + w)
MCView == <<cur, Len(hist)>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
