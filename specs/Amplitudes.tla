----------------------------- MODULE Amplitudes -----------------------------
(* C37.  A table of amplitudes and the ways to compress, expand and scale    *)
(* them.  An amplitude is a fraction <<n, d>>; a table of the form "plain"   *)
(* holds these numbers, of the form "exp" sign * (e^|v| - 1), of the form    *)
(* "dec" 10^v.  With mu = 2^k - 1, mu-law maps +-(2^p - 1)/mu to +-p/k.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rows, Cols, Ks, Levels, Depth
VARIABLES x, form, k, was, \* was: the table before the last step
          hist
vars == <<x, form, k, was, hist>>
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(Abs(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<Sgn(n) * (Abs(n) \div g), d \div g>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Minus(a, b) == Frac(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
Over(a, b) == Frac(Sgn(b[1]) * a[1] * b[2], a[2] * Abs(b[1]))
Size(a) == <<Abs(a[1]), a[2]>>
RECURSIVE Pow2(_)
Pow2(p) == IF p = 0 THEN 1 ELSE 2 * Pow2(p - 1)
\* ---- mu-law
Linear(p, kk) == Frac(Sgn(p) * (Pow2(Abs(p)) - 1), Pow2(kk) - 1)
Steps(kk) == (0 - kk)..kk
Companded(kk) == {Linear(p, kk) : p \in Steps(kk)}
StepOf(v, kk) == CHOOSE p \in Steps(kk) : Linear(p, kk) = v
Expandable(kk) == {Frac(p, kk) : p \in Steps(kk)}
\* ---- tables
Map(F(_), t) == [i \in DOMAIN t |-> [j \in DOMAIN t[i] |-> F(t[i][j])]]
Cells(t) == {t[i][j] : i \in DOMAIN t, j \in DOMAIN t[1]}
Least(S) == CHOOSE a \in S : \A b \in S : ~Less(b, a)
Most(S) == CHOOSE a \in S : \A b \in S : ~Less(a, b)
\* the cells that lie along an axis with (i, j); axis 0 stands for all axes
Along(t, axis, i, j) == CASE axis = 1 -> {t[h][j] : h \in DOMAIN t}
                          [] axis = 2 -> {t[i][h] : h \in DOMAIN t[1]}
                          [] OTHER -> Cells(t)
Compress(t, kk) == Map(LAMBDA v : Frac(StepOf(v, kk), kk), t)
Expand(t, kk) == Map(LAMBDA v : Linear((v[1] * kk) \div v[2], kk), t)
Instance(t, axis) == [i \in DOMAIN t |-> [j \in DOMAIN t[1] |->
                        LET m == Most({Size(v) : v \in Along(t, axis, i, j)})
                        IN IF m[1] = 0 THEN <<0, 1>> ELSE Over(t[i][j], m)]]
Maxes(t, axis) == [i \in DOMAIN t |-> [j \in DOMAIN t[1] |-> Most({Size(v) : v \in Along(t, axis, i, j)})]]
Unit(t, axis) == [i \in DOMAIN t |-> [j \in DOMAIN t[1] |->
                        LET S == Along(t, axis, i, j) lo == Least(S) w == Minus(Most(S), lo)
                        IN IF w[1] = 0 THEN <<0, 1>> ELSE Over(Minus(t[i][j], lo), w)]]
Negate(t) == Map(LAMBDA v : <<0 - v[1], v[2]>>, t)
\* the first largest of a sequence of cells, as a number in [-1, 1)
First(s) == CHOOSE h \in DOMAIN s : /\ \A g \in DOMAIN s : ~Less(s[h], s[g])
                                    /\ \A g \in 1..(h - 1) : Less(s[g], s[h])
OneHot(t, axis) == IF axis = 1
                   THEN <<[j \in DOMAIN t[1] |-> Frac(2 * (First([i \in DOMAIN t |-> t[i][j]]) - 1) - Len(t), Len(t))]>>
                   ELSE [i \in DOMAIN t |-> <<Frac(2 * (First(t[i]) - 1) - Len(t[1]), Len(t[1]))>>]
\* the step that a change makes of a table; "no" when it does not apply
Applies(op, t, f, kk) == CASE op = "compress" -> f = "plain" /\ Cells(t) \subseteq Companded(kk)
                           [] op = "expand" -> f = "plain" /\ Cells(t) \subseteq Expandable(kk)
                           [] op = "explog" -> f = "plain" /\ \A v \in Cells(t) : Abs(v[1]) <= 8 * v[2]
                           [] op = "logmod" -> f = "exp"
                           [] op = "decibel" -> f = "dec"
                           [] OTHER -> f = "plain"
After(op, t, axis, kk) == CASE op = "compress" -> Compress(t, kk)
                            [] op = "expand" -> Expand(t, kk)
                            [] op = "instance" -> Instance(t, axis)
                            [] op = "unit" -> Unit(t, axis)
                            [] op = "negate" -> Negate(t)
                            [] op = "onehot" -> OneHot(t, axis)
                            [] op = "decibel" -> Map(LAMBDA v : Frac(20 * v[1], v[2]), t)
                            [] OTHER -> t
FormAfter(op, f) == CASE op = "explog" -> "exp" [] op \in {"logmod", "decibel"} -> "plain" [] OTHER -> f
\* ---- spectra: magnitudes are 2^a, or 0 where a is -1
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Mag(a) == IF a < 0 THEN 0 ELSE Pow2(a)
Flat(r) == LET n == Len(r) tot == Sum([j \in DOMAIN r |-> Mag(r[j])]) all == Sum(r) IN
              IF \E j \in DOMAIN r : r[j] < 0 THEN <<0, 1>> ELSE Frac(n * Pow2(all \div n), tot)
Centre(r) == LET tot == Sum([j \in DOMAIN r |-> Mag(r[j])]) IN
              IF tot = 0 THEN <<0, 1>> ELSE Frac(Sum([j \in DOMAIN r |-> j * Mag(r[j])]), tot)
\* ---- state machine (bounded)
Start == {[i \in 1..Rows |-> [j \in 1..Cols |-> Linear(p[i][j], kk)]] : p \in [1..Rows -> [1..Cols -> Levels]], kk \in Ks}
Init == /\ k \in Ks
        /\ x \in {[i \in 1..Rows |-> [j \in 1..Cols |-> Linear(p[i][j], k)]] :
                     p \in {q \in [1..Rows -> [1..Cols -> Levels]] : \A i \in 1..Rows, j \in 1..Cols : Abs(q[i][j]) <= k}}
        /\ form = "plain" /\ was = x /\ hist = <<>>
Do(op, axis) == /\ Len(hist) < Depth /\ Applies(op, x, form, k)
                /\ x' = After(op, x, axis, k) /\ form' = FormAfter(op, form) /\ was' = x
                /\ hist' = Append(hist, <<op, axis>>) /\ UNCHANGED k
Ops == {<<"compress", 0>>, <<"expand", 0>>, <<"logmod", 0>>, <<"explog", 0>>, <<"negate", 0>>, <<"instance", 1>>, <<"instance", 2>>,
        <<"unit", 0>>, <<"unit", 1>>, <<"unit", 2>>}
Next == \E o \in Ops : Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
MCView == <<x, form, k, was, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)], Len(hist)>>
Last == IF hist = <<>> THEN <<"", 0>> ELSE hist[Len(hist)]
At(S) == {<<i, j>> : i \in DOMAIN x, j \in DOMAIN x[1]}
Same(a, b) == x[a[1]][a[2]] = x[b[1]][b[2]]
\* order along the lines that were scaled together is kept, and so are signs and silence
Ordered == Last[1] \in {"compress", "expand", "unit", "instance"} =>
              \A i \in DOMAIN x, j \in DOMAIN x[1] :
                 \A g \in DOMAIN x, h \in DOMAIN x[1] :
                    (Last[2] = 0 \/ (Last[2] = 1 /\ j = h) \/ (Last[2] = 2 /\ i = g)) =>
                        (Less(x[i][j], x[g][h]) <=> Less(was[i][j], was[g][h]))
Signs == Last[1] \in {"compress", "expand", "instance"} => \A i \in DOMAIN x, j \in DOMAIN x[1] : Sgn(x[i][j][1]) = Sgn(was[i][j][1])
Range == \A v \in Cells(x) : Abs(v[1]) <= v[2]
Inverse == /\ (Last[1] = "compress" => Expand(x, k) = was)
           /\ (Last[1] = "expand" => Compress(x, k) = was)
           /\ (Last[1] = "negate" => Negate(x) = was)
\* a line that was scaled reaches one, unless it is silent; scaling it again changes nothing
Full == /\ (Last[1] = "instance" => /\ Instance(x, Last[2]) = x
                                    /\ \A i \in DOMAIN x, j \in DOMAIN x[1] :
                                          LET m == Most({Size(v) : v \in Along(x, Last[2], i, j)}) IN m = <<1, 1>> \/ m[1] = 0)
        /\ (Last[1] = "unit" => /\ Unit(x, Last[2]) = x
                                /\ \A i \in DOMAIN x, j \in DOMAIN x[1] :
                                      LET S == Along(x, Last[2], i, j) IN Least(S) = <<0, 1>> /\ (Most(S) = <<1, 1>> \/ S = {<<0, 1>>}))
\* quiet sounds gain most
Louder == Last[1] = "compress" => \A i \in DOMAIN x, j \in DOMAIN x[1] : ~Less(Size(x[i][j]), Size(was[i][j]))
\* spectra: flat ones are one, louder ones the same, and centres lie where there's something
Rowish == {r \in [1..3 -> 0 - 1..3] : Sum(r) % 3 = 0}
Summaries == \A r \in Rowish :
               /\ Flat(r)[1] <= Flat(r)[2] /\ ((Flat(r) = <<1, 1>>) <=> (r[1] >= 0 /\ \A j \in 1..3 : r[j] = r[1]))
               /\ (r[1] >= 0 /\ r[2] >= 0 /\ r[3] >= 0 =>
                     LET q == [j \in 1..3 |-> r[j] + 1] IN Flat(q) = Flat(r) /\ Centre(q) = Centre(r))
               /\ Centre(r)[1] <= 3 * Centre(r)[2]
               /\ \A j \in 1..3 : (r[j] >= 0 /\ \A h \in 1..3 : h # j => r[h] < 0) => Centre(r) = <<j, 1>>
ASSUME Summaries
L1 == (0 - 2)..3
L0 == {0}
Emit == Len(hist) >= Depth => PrintT("GEN " \o ToJson([k |-> k, hist |-> hist]))
=============================================================================
