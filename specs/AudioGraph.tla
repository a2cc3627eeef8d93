----------------------------- MODULE AudioGraph -----------------------------
(* C34.  The ready-made processing graphs.  A document is made from a sound   *)
(* (bursts of a known pitch, each at a known moment, and silence otherwise)   *)
(* and has features of several kinds and resolutions.  Every feature tells    *)
(* the same story: what it shows, and where it is silent, is what the sound   *)
(* has in the time that its own axis claims.  Documents share a store, and    *)
(* none of them shows anything of another one.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Ids, Sounds, Lengths, Chunks, Depth
VARIABLES docs, \* id -> <<kind, sound, length, chunk>>
          last, \* the last answer: <<id, rows that show something>>
          hist
vars == <<docs, last, hist>>
CeilDiv(a, b) == (a + b - 1) \div b
\* a feature: samples from one row to the next, and samples that a row covers
Shape(kind) == CASE kind = "resampled" -> <<1, 1>> [] kind = "stft" -> <<2, 4>> [] kind = "audio" -> <<2, 4>>
                 [] kind = "windowed" -> <<4, 6>> [] kind = "adaptive" -> <<2, 4>> [] OTHER -> <<3, 3>>
\* windows go on until the end of the sound has been covered
Rows(n, hop, win) == IF n <= win THEN 1 ELSE CeilDiv(n - win, hop) + 1
Covers(hop, win, row) == (row * hop)..(row * hop + win - 1)
\* bursts: <<first sample, samples>>
SoundOf(s) == CASE s = "early" -> {<<1, 2>>} [] s = "late" -> {<<9, 2>>} [] s = "two" -> {<<2, 1>>, <<10, 2>>} [] OTHER -> {}
Sounding(doc) == {m \in UNION {b[1]..(b[1] + b[2] - 1) : b \in SoundOf(doc[2])} : m < doc[3]}
Shows(doc) == LET sh == Shape(doc[1])
              IN {r \in 0..(Rows(doc[3], sh[1], sh[2]) - 1) : Covers(sh[1], sh[2], r) \cap Sounding(doc) # {}}
Init == docs = <<>> /\ last = <<>> /\ hist = <<>>
Step(x) == hist' = Append(hist, x)
Process == /\ Len(hist) < Depth
           /\ \E i \in Ids, k \in Kinds, s \in Sounds, n \in Lengths, ch \in Chunks :
                /\ (i \in DOMAIN docs => docs[i][1] = k)
                /\ docs' = [j \in DOMAIN docs \cup {i} |-> IF j = i THEN <<k, s, n, ch>> ELSE docs[j]]
                /\ Step(<<"process", i, k, s, n, ch>>)
           /\ last' = <<>>
Read == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN docs : last' = <<i, Shows(docs[i])>> /\ Step(<<"read", i, "", "", 0, 0>>)
        /\ UNCHANGED docs
Names == /\ Len(hist) < Depth /\ docs # <<>> /\ UNCHANGED docs /\ last' = <<>> /\ Step(<<"names", 0, "", "", 0, 0>>)
Next == Process \/ Read \/ Names
Spec == Init /\ [][Next]_vars
MCView == <<docs, last, Len(hist)>>
\* nothing of the sound is left out: every sounding moment of a document lies in a row that shows something
Complete == \A i \in DOMAIN docs : LET sh == Shape(docs[i][1]) IN sh[1] <= sh[2] =>
              \A m \in Sounding(docs[i]) : \E r \in Shows(docs[i]) : m \in Covers(sh[1], sh[2], r)
\* and nothing is shown where the sound is silent
Sound == \A i \in DOMAIN docs : LET sh == Shape(docs[i][1]) IN
           \A r \in Shows(docs[i]) : \E m \in Sounding(docs[i]) : m \in Covers(sh[1], sh[2], r)
\* two features of one sound agree: whatever one of them shows, the other shows at about that time too
Span(doc) == LET sh == Shape(doc[1]) IN UNION {Covers(sh[1], sh[2], r) : r \in Shows(doc)}
Agree == \A i, j \in DOMAIN docs : docs[i][2] = docs[j][2] /\ docs[i][3] = docs[j][3] =>
           LET sh == Shape(docs[i][1])
           IN \A r \in Shows(docs[i]) : Covers(sh[1], sh[2], r) \cap Span(docs[j]) # {}
\* an answer is about the document that was asked for, and does not depend on how its sound arrived
Own == last # <<>> => last[2] = Shows([docs[last[1]] EXCEPT ![4] = CHOOSE ch \in Chunks : TRUE])
\* making one document leaves the others alone
Alone == [][\A i \in DOMAIN docs : docs'[i] = docs[i] \/ hist'[Len(hist')][2] = i]_vars
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
