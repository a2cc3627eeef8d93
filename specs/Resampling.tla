----------------------------- MODULE Resampling -----------------------------
(* C33.  A stream of samples becomes a stream at another rate.  Samples come  *)
(* in pieces of any size; a new sample can be made once the old ones around   *)
(* its moment have been seen, and when the stream ends the rest is made.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ratios, Look, Sizes, Depth
VARIABLES ratio, \* <<new rate, old rate>>
          seen,  \* old samples seen
          parts, \* the pieces of new samples: <<first, first after>>
          ended, hist
vars == <<ratio, seen, parts, ended, hist>>
R1 == {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<1, 1>>, <<1, 4>>, <<5, 3>>}
R2 == {<<1, 1>>}
Init == ratio \in Ratios /\ seen = 0 /\ parts = <<>> /\ ended = FALSE /\ hist = <<>>
Made == IF parts = <<>> THEN 0 ELSE parts[Len(parts)][2]
\* how many new samples n old ones make (halves are rounded up)
Total(n) == (2 * n * ratio[1] + ratio[2]) \div (2 * ratio[2])
\* how many can be made when n old ones have been seen
Ready(n) == IF n < Look THEN 0 ELSE ((n - Look) * ratio[1]) \div ratio[2]
Make(to) == parts' = IF to > Made THEN Append(parts, <<Made, to>>) ELSE parts
In == /\ Len(hist) < Depth /\ ~ended
      /\ \E k \in Sizes : /\ seen' = seen + k /\ hist' = Append(hist, k)
                          /\ \E to \in Made..Ready(seen + k) \cup {Made} : Make(to)
      /\ UNCHANGED <<ratio, ended>>
End == /\ ~ended /\ ended' = TRUE /\ Make(Total(seen)) /\ UNCHANGED <<ratio, seen, hist>>
Next == In \/ End
Spec == Init /\ [][Next]_vars
MCView == <<ratio, seen, parts, ended, Len(hist)>>
\* pieces follow each other without gaps, and none is empty
Tiled == \A k \in DOMAIN parts : /\ parts[k][1] < parts[k][2]
                                 /\ parts[k][1] = (IF k = 1 THEN 0 ELSE parts[k - 1][2])
\* sample j stands for the moment j / new rate
NotEarly == ~ended => Made * ratio[2] <= seen * ratio[1]
Whole == ended => Made = Total(seen) /\ 2 * (Made * ratio[2] - seen * ratio[1]) \in -ratio[2]..ratio[2]
\* what has been made is never taken back
Grows == [][Len(parts') >= Len(parts) /\ SubSeq(parts', 1, Len(parts)) = parts]_vars
Emit == (ended /\ Len(hist) >= Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
