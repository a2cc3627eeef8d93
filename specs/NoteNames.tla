------------------------------ MODULE NoteNames ------------------------------
(* C30.  A walk over the notes: twelve pitch classes in an octave, one number *)
(* a semitone.  Going up from the last pitch class enters the next octave.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Start, Depth
Classes == <<"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B">>
VARIABLES pc, oct,   \* where the walk is: pitch class 1..12, octave
          moved,     \* how many semitones it went so far
          hist
vars == <<pc, oct, moved, hist>>
Init == pc = 1 /\ oct = Start /\ moved = 0 /\ hist = <<>>
Up   == IF pc = 12 THEN pc' = 1 /\ oct' = oct + 1 ELSE pc' = pc + 1 /\ oct' = oct
Down == IF pc = 1 THEN pc' = 12 /\ oct' = oct - 1 ELSE pc' = pc - 1 /\ oct' = oct
Step == /\ Len(hist) < Depth
        /\ \/ Up /\ moved' = moved + 1 /\ hist' = Append(hist, 1)
           \/ Down /\ moved' = moved - 1 /\ hist' = Append(hist, 0 - 1)
           \/ pc' = pc /\ oct' = oct + 1 /\ moved' = moved + 12 /\ hist' = Append(hist, 12)
           \/ pc' = pc /\ oct' = oct - 1 /\ moved' = moved - 12 /\ hist' = Append(hist, 0 - 12)
Next == Step
Spec == Init /\ [][Next]_vars
Number(p, o) == 12 * o + p - 1
Name(n) == Classes[(n % 12) + 1]
Octave(n) == n \div 12
\* however the walk went, its number is where it began plus the semitones it moved
Adds == Number(pc, oct) = 12 * Start + moved
\* a number has one name and one octave, which give the number back
OneName == /\ Name(Number(pc, oct)) = Classes[pc] /\ Octave(Number(pc, oct)) = oct
           /\ \A p \in 1..12 : \A o \in (oct - 2)..(oct + 2) : Number(p, o) = Number(pc, oct) => p = pc /\ o = oct
MCView == <<pc, oct, moved, Len(hist)>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
