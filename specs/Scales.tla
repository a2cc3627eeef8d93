------------------------------- MODULE Scales -------------------------------
(* C36.  A scale is a sequence of bands of frequency; applying it to a        *)
(* spectrum gives for each band the weighted sum of the bins that meet it.    *)
(* Bins are numbered from 1; bin j spans j-1 to j.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Top, MaxBands, Values, Depth
VARIABLES scale, \* of <<start, stop>>
          x,     \* the spectrum
          out,   \* what the scale makes of it
          hist
vars == <<scale, x, out, hist>>
Bands == {<<s, t>> : s, t \in 0..Top}
Proper == {b \in Bands : b[1] < b[2]}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* ---- bands
Meet(a, b) == IF Max2(a[1], b[1]) < Min2(a[2], b[2]) THEN <<Max2(a[1], b[1]), Min2(a[2], b[2])>> ELSE <<>>
Width(b) == IF b = <<>> THEN 0 ELSE b[2] - b[1]
\* every band shares at least p/q of itself with the next one
Overlapping(sc, p, q) == \A i \in 1..(Len(sc) - 1) : Width(Meet(sc[i], sc[i + 1])) * q >= p * Width(sc[i])
\* n bands of the same width, one after the other
Linear(lo, w, n) == [i \in 1..n |-> <<lo + (i - 1) * w, lo + i * w>>]
\* ---- spectra
\* the bins that overlap a band or end exactly where it begins; a sequence of indices
Run(bins, b) == SelectSeq([j \in DOMAIN bins |-> j], LAMBDA j : bins[j][2] >= b[1] /\ bins[j][1] < b[2])
\* windows: a constant, a ramp, or a triangle
Weight(win, i, n) == CASE win[1] = "ramp" -> i [] win[1] = "tri" -> Min2(i, n + 1 - i) [] OTHER -> win[2]
Total(bins, b, win, v) == LET r == Run(bins, b) IN Sum([i \in DOMAIN r |-> Weight(win, i, Len(r)) * v[r[i]]])
Apply(bins, sc, win, v) == [i \in DOMAIN sc |-> Total(bins, sc[i], win, v)]
\* ---- a scale and a spectrum that grow
Bins == Linear(0, 1, Top)
Ramp == <<"ramp", 0>>
Position(r, j) == CHOOSE i \in DOMAIN r : r[i] = j
Init == scale = <<>> /\ x = [j \in 1..Top |-> 0] /\ out = <<>> /\ hist = <<>>
AddBand == /\ Len(hist) < Depth /\ Len(scale) < MaxBands
           /\ \E b \in Proper : /\ (scale # <<>> => b[1] >= scale[Len(scale)][1])
                                /\ scale' = Append(scale, b)
                                /\ out' = Append(out, Total(Bins, b, Ramp, x))
                                /\ hist' = Append(hist, <<"band", b[1], b[2]>>)
           /\ UNCHANGED x
AddBin == /\ Len(hist) < Depth
          /\ \E j \in 1..Top, v \in Values :
                /\ x' = [x EXCEPT ![j] = @ + v]
                /\ out' = [i \in DOMAIN out |-> LET r == Run(Bins, scale[i]) IN
                              IF \E k \in DOMAIN r : r[k] = j THEN out[i] + v * Position(r, j) ELSE out[i]]
                /\ hist' = Append(hist, <<"bin", j, v>>)
          /\ UNCHANGED scale
Next == AddBand \/ AddBin
Spec == Init /\ [][Next]_vars
MCView == <<scale, x, out, Len(hist)>>
\* what is kept up to date is what the definition says
Linearity == out = Apply(Bins, scale, Ramp, x)
\* a band meets a contiguous run of bins that covers all of it
Contiguous == \A i \in DOMAIN scale : LET r == Run(Bins, scale[i]) IN
                 /\ \A k \in 1..(Len(r) - 1) : r[k + 1] = r[k] + 1
                 /\ \A j \in 1..Top : (Meet(Bins[j], scale[i]) # <<>>) => \E k \in DOMAIN r : r[k] = j
                 /\ Len(r) <= Width(scale[i]) + 1
\* sharing is symmetric, within both, and everything only with itself
Meeting == \A i, k \in DOMAIN scale : LET m == Meet(scale[i], scale[k]) IN
                 /\ m = Meet(scale[k], scale[i]) /\ Width(m) <= Width(scale[i])
                 /\ (m = scale[i] <=> scale[k][1] <= scale[i][1] /\ scale[i][2] <= scale[k][2])
                 /\ (m # <<>> => Meet(m, scale[i]) = m)
\* who overlaps enough overlaps enough for less
Monotone == \A p \in 1..3 : Overlapping(scale, p, 4) => Overlapping(scale, p - 1, 4)
\* bands one after the other cover a band and share nothing
Tiled == \A lo \in 0..1, w \in 1..2, n \in 1..3 : LET t == Linear(lo, w, n) IN
                 /\ t[1][1] = lo /\ t[n][2] = lo + n * w
                 /\ \A i, k \in 1..n : i # k => Meet(t[i], t[k]) = <<>>
                 /\ Sum([i \in 1..n |-> Width(t[i])]) = n * w
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
