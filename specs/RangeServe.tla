----------------------------- MODULE RangeServe -----------------------------
(* C25: a resource of a web application is asked for in parts.  Positions of  *)
(* bytes are inclusive at both ends; spans of time are half-open.             *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxSize, MaxPos, Depth

VARIABLES size,      \* of the resource, in bytes or units of time
          kind,      \* "bytes": only bytes can be asked for, "time": only time, "both"
          answer,    \* the last answer
          hist
vars == <<size, kind, answer, hist>>

Whole == [st |-> 200, first |-> -1, last |-> -1, from |-> 0, to |-> 0]

(* unit: "bytes", "seconds", "none", "other" (an unknown unit) or "broken"    *)
(* form: "closed", "open" (no end), "suffix" (the last b)                     *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

(* from and to: the part of the resource in the body is [from, to)            *)
Refused == [st |-> 416, first |-> -1, last |-> -1, from |-> 0, to |-> 0]
Part(first, last, to) == [st |-> 206, first |-> first, last |-> last, from |-> first, to |-> to]
All(n) == [Whole EXCEPT !.to = n]

Bytes(n, form, a, b) ==
    IF form = "suffix" THEN IF b = 0 THEN Refused ELSE Part(Max(0, n - b), n - 1, n)
    ELSE IF a >= n THEN IF form = "closed" /\ b < a THEN All(n) ELSE Refused
    ELSE IF form = "open" THEN Part(a, n - 1, n)
    ELSE IF b < a THEN All(n)
    ELSE Part(a, Min(b, n - 1), Min(b, n - 1) + 1)
Time(n, form, a, b) ==
    IF form = "suffix" THEN All(n)
    ELSE IF form = "closed" /\ b < a THEN All(n)
    ELSE IF a >= n THEN Refused
    ELSE IF form = "open" THEN Part(a, n, n)
    ELSE IF b = a THEN Refused
    ELSE Part(a, Min(b, n), Min(b, n))

Answer(n, k, unit, form, a, b) ==
    IF unit = "bytes" /\ k # "time" THEN Bytes(n, form, a, b)
    ELSE IF unit = "seconds" /\ k # "bytes" THEN Time(n, form, a, b)
    ELSE All(n)

Init == size \in 1..MaxSize /\ kind \in {"bytes", "time", "both"} /\ answer = Whole /\ hist = <<>>

Ask(unit, form, a, b) ==
    /\ Len(hist) < Depth
    /\ kind = "time" => unit = "seconds"
    /\ answer' = Answer(size, kind, unit, form, a, b)
    /\ hist' = Append(hist, [unit |-> unit, form |-> form, a |-> a, b |-> b])
    /\ UNCHANGED <<size, kind>>

Next == \/ \E u \in {"bytes", "seconds"} :
             \/ \E a, b \in 0..MaxPos : Ask(u, "closed", a, b)
             \/ \E a \in 0..MaxPos : Ask(u, "open", a, 0)
             \/ \E b \in 0..MaxPos : Ask(u, "suffix", 0, b)
        \/ \E u \in {"none", "other", "broken"} : Ask(u, "closed", 0, 0)
Spec == Init /\ [][Next]_vars

Asked == Len(hist) > 0
LastReq == hist[Len(hist)]
WithinResource == Asked => answer.from >= 0 /\ answer.to <= size
LabelIsBody == Asked /\ answer.st = 206 => /\ answer.first = answer.from
                                           /\ answer.last = IF LastReq.unit = "bytes" THEN answer.to - 1 ELSE answer.to
NeverMoreThanAsked ==
    Asked /\ answer.st = 206 /\ LastReq.form = "closed" =>
        answer.from = LastReq.a /\ answer.to <= LastReq.b + 1 /\ answer.to > answer.from
RefusedHoldsNothing == Asked /\ answer.st = 416 => answer.from = answer.to
(* adjacent ranges put the resource together *)
Together == \A u \in {"bytes", "seconds"}, m \in 1..size - 1 :
    LET k == IF u = "bytes" THEN "bytes" ELSE "time"
        x == Answer(size, k, u, "closed", 0, IF u = "bytes" THEN m - 1 ELSE m)
        y == Answer(size, k, u, "open", m, 0)
    IN  x.from = 0 /\ x.to = y.from /\ y.to = size

MCView == <<size, kind, answer, hist>>
Gen == Len(hist) < Depth \/ PrintT("GEN " \o ToJson([size |-> size, kind |-> kind, ops |-> hist]))
=============================================================================
