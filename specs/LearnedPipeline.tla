--------------------------- MODULE LearnedPipeline ---------------------------
(* C17.  A pipeline of learned steps over rows of exact fractions.  A step   *)
(* learns its parameters from what the steps before it made of the training  *)
(* data; a run keeps, for each step, what the inverse of that step needs.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
-----------------------------------------------------------------------------
\* fractions <<numerator, denominator>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Q(n, d) == IF n = 0 THEN <<0, 1>>
           ELSE LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN 0 - 1 ELSE 1
                IN  <<s * (IF n < 0 THEN 0 - ((0 - n) \div g) ELSE n \div g), (Abs(d) \div g)>>
Zero == <<0, 1>>
One == <<1, 1>>
Add(a, b) == Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Neg(a) == <<0 - a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET x == Q(a[1], b[2]) y == Q(b[1], a[2]) IN Q(x[1] * y[1], x[2] * y[2])
Div(a, b) == IF b[1] < 0 THEN Mul(a, Q(0 - b[2], 0 - b[1])) ELSE Mul(a, <<b[2], b[1]>>)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
AbsQ(a) == <<Abs(a[1]), a[2]>>
RECURSIVE SumQ(_), MaxQ(_), MinQ(_)
SumQ(s) == IF s = <<>> THEN Zero ELSE Add(s[1], SumQ(SubSeq(s, 2, Len(s))))
MaxQ(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MaxQ(SubSeq(s, 2, Len(s))) IN IF Less(m, s[1]) THEN s[1] ELSE m
MinQ(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MinQ(SubSeq(s, 2, Len(s))) IN IF Less(s[1], m) THEN s[1] ELSE m
\* the root of a perfect square; of anything else -1
Root(n) == IF \E k \in 0..400 : k * k = n THEN CHOOSE k \in 0..400 : k * k = n ELSE 0 - 1
RootQ(a) == Q(Root(a[1]), Root(a[2]))
-----------------------------------------------------------------------------
\* A step is a record: k is its kind, w, m and f its parameters
Column(rows, j) == [i \in DOMAIN rows |-> rows[i][j]]
Mean(s) == Div(SumQ(s), <<Len(s), 1>>)
Var(s) == LET m == Mean(s) IN Div(SumQ([i \in DOMAIN s |-> Mul(Sub(s[i], m), Sub(s[i], m))]), <<Len(s), 1>>)
\* with the parameters that the step learns from the rows it's trained on
Learn(st, rows) ==
    IF st.k = "meanstd" THEN
        [st EXCEPT !.m = [j \in DOMAIN rows[1] |-> Mean(Column(rows, j))],
                   !.w = [j \in DOMAIN rows[1] |-> LET s == RootQ(Var(Column(rows, j))) IN IF s = Zero THEN One ELSE s]]
    ELSE IF st.k = "shift" THEN [st EXCEPT !.m = [j \in DOMAIN rows[1] |-> MinQ(Column(rows, j))]]
    ELSE st
LastOf(s) == s[Len(s)]
At(w, j) == w[((j - 1) % Len(w)) + 1]
\* the places of a row that are left by a slice of its last axis
Places(st, n, width) == LET per == Len(st.sel) IN
    [x \in 1..((n \div width) * per) |-> ((x - 1) \div per) * width + st.sel[((x - 1) % per) + 1]]
Norm(row) == RootQ(SumQ([j \in DOMAIN row |-> Mul(row[j], row[j])]))
\* what the inverse has to know about a row
Aux(st, row) == IF st.k = "inst" THEN MaxQ([j \in DOMAIN row |-> AbsQ(row[j])])
                ELSE IF st.k = "unit" THEN Norm(row) ELSE Zero
Fwd(st, row, width) ==
    CASE st.k = "mul" -> [j \in DOMAIN row |-> Mul(row[j], st.f)]
      [] st.k = "weight" -> [j \in DOMAIN row |-> Mul(row[j], At(st.w, j))]
      [] st.k = "meanstd" -> [j \in DOMAIN row |-> Div(Sub(row[j], st.m[j]), st.w[j])]
      [] st.k = "shift" -> [j \in DOMAIN row |-> Sub(row[j], st.m[j])]
      [] st.k = "inst" -> LET a == Aux(st, row) IN [j \in DOMAIN row |-> IF a = Zero THEN Zero ELSE Mul(st.f, Div(row[j], a))]
      [] st.k = "unit" -> LET a == Aux(st, row) IN [j \in DOMAIN row |-> IF a = Zero THEN Zero ELSE Div(row[j], a)]
      [] st.k = "slice" -> LET p == Places(st, Len(row), width) IN [x \in DOMAIN p |-> row[p[x]]]
      [] st.k = "perm" -> [j \in DOMAIN row |-> Mul(row[st.sel[j]], st.f)]
      [] st.k = "abs" -> [j \in DOMAIN row |-> AbsQ(row[j])]
      [] st.k = "bin" -> [j \in DOMAIN row |-> IF Less(st.f, row[j]) THEN One ELSE Zero]
      [] st.k = "sharpen" -> [j \in DOMAIN row |->
            LET v(i) == IF i \in DOMAIN row THEN row[i] ELSE Zero
                t == SumQ(<<Mul(v(j + 1), st.w[1]), Mul(v(j), st.w[2]), Mul(v(j - 1), st.w[3])>>)
            IN  IF Less(t, Zero) THEN Zero ELSE t]
      [] OTHER -> row           \* reshape; log and mu law, whose rows are given in their own terms
Inv(st, row, aux, n, width) ==
    CASE st.k = "mul" -> [j \in DOMAIN row |-> Div(row[j], st.f)]
      [] st.k = "weight" -> [j \in DOMAIN row |-> Div(row[j], At(st.w, j))]
      [] st.k = "meanstd" -> [j \in DOMAIN row |-> Add(Mul(row[j], st.w[j]), st.m[j])]
      [] st.k = "shift" -> [j \in DOMAIN row |-> Add(row[j], st.m[j])]
      [] st.k = "inst" -> [j \in DOMAIN row |-> Div(Mul(row[j], aux), st.f)]
      [] st.k = "unit" -> [j \in DOMAIN row |-> Mul(row[j], aux)]
      [] st.k = "slice" -> LET p == Places(st, n, width) IN
             [j \in 1..n |-> IF \E x \in DOMAIN p : p[x] = j THEN row[CHOOSE x \in DOMAIN p : p[x] = j] ELSE Zero]
      [] st.k = "perm" -> [j \in DOMAIN row |-> Div(row[CHOOSE i \in DOMAIN row : st.sel[i] = j], st.f)]
      [] OTHER -> row
OneWay == {"abs", "bin", "sharpen", "opaque", "oneway"}
Lossy(st, width) == st.k = "slice" /\ Len(st.sel) # width
Prod(shape) == LET F[i \in 0..Len(shape)] == IF i = 0 THEN 1 ELSE F[i - 1] * shape[i] IN F[Len(shape)]
Shape(st, shape) == IF st.k = "slice" THEN SubSeq(shape, 1, Len(shape) - 1) \o <<Len(st.sel)>>
                    ELSE IF st.k = "reshape" THEN st.sel
                    ELSE IF st.k \in {"shift", "perm"} THEN <<Prod(shape)>> ELSE shape
\* all stages of a run: stage i is what goes into step i
RECURSIVE Stages(_, _, _), Shapes(_, _)
Shapes(steps, shape) == IF steps = <<>> THEN <<shape>>
    ELSE <<shape>> \o Shapes(SubSeq(steps, 2, Len(steps)), Shape(steps[1], shape))
Stages(steps, row, shape) == IF steps = <<>> THEN <<row>>
    ELSE <<row>> \o Stages(SubSeq(steps, 2, Len(steps)), Fwd(steps[1], row, LastOf(shape)), Shape(steps[1], shape))
Run(steps, row, shape) == LastOf(Stages(steps, row, shape))
RECURSIVE Back(_, _, _, _)
\* undo steps 1..i of a run whose stages are known
Back(steps, stages, shapes, row) ==
    IF steps = <<>> THEN row
    ELSE LET i == Len(steps) IN
         Back(SubSeq(steps, 1, i - 1), SubSeq(stages, 1, i), SubSeq(shapes, 1, i),
              Inv(steps[i], row, Aux(steps[i], stages[i]), Len(stages[i]), LastOf(shapes[i])))
Restored(steps, row, shape) == LET s == Stages(steps, row, shape) IN
    Back(steps, s, Shapes(steps, shape), LastOf(s))
RECURSIVE Train(_, _, _)
Train(steps, rows, shape) == IF steps = <<>> THEN <<>>
    ELSE LET st == Learn(steps[1], rows)
             next == [i \in DOMAIN rows |-> Fwd(st, rows[i], LastOf(shape))]
         IN  <<st>> \o Train(SubSeq(steps, 2, Len(steps)), next, Shape(st, shape))
-----------------------------------------------------------------------------
CONSTANTS Lib, MaxSteps, MaxRuns
VARIABLES steps, runs, hist
vars == <<steps, runs, hist>>
Blank(k) == [k |-> k, f |-> One, w |-> <<>>, m |-> <<>>, sel |-> <<>>]
Library == [mul |-> [Blank("mul") EXCEPT !.f = <<0 - 3, 1>>], half |-> [Blank("mul") EXCEPT !.f = <<1, 2>>],
            weight |-> [Blank("weight") EXCEPT !.w = <<<<2, 1>>, <<0 - 1, 4>>>>],
            meanstd |-> Blank("meanstd"), shift |-> Blank("shift"), inst |-> [Blank("inst") EXCEPT !.f = <<2, 1>>],
            unit |-> Blank("unit"), slice |-> [Blank("slice") EXCEPT !.sel = <<2>>],
            perm |-> [Blank("perm") EXCEPT !.sel = <<2, 1>>], abs |-> Blank("abs"), reshape |-> [Blank("reshape") EXCEPT !.sel = <<1, 2>>],
            log |-> Blank("log"), oneway |-> Blank("oneway")]
TrainRows == << <<<<1, 1>>, <<4, 1>>>>, <<<<5, 1>>, <<4, 1>>>> >>
Inputs == {<<<<3, 1>>, <<4, 1>>>>, <<<<0, 1>>, <<0, 1>>>>, <<<<0 - 12, 1>>, <<5, 1>>>>}
\* a norm is rational only when nothing changed the directions of the rows, and
\* a deviation when the columns were only moved and scaled
NormsOk(names) == \A i \in DOMAIN names : names[i] = "unit" => \A j \in 1..i - 1 : names[j] \in {"mul", "half", "reshape", "perm", "inst"}
StdOk(names) == \A i \in DOMAIN names : names[i] = "meanstd" =>
    \A j \in 1..i - 1 : names[j] \in {"mul", "half", "weight", "meanstd", "shift", "slice", "perm", "reshape", "log"}
\* steps that only work on flat rows of two values, and what only makes sense first
Flat(names) == \A i \in DOMAIN names : /\ (names[i] \in {"perm", "weight", "slice"} => \A j \in 1..i - 1 : names[j] # "slice")
                                       /\ (names[i] = "log" => i = 1)
Names == UNION {[1..n -> Lib] : n \in 1..MaxSteps}
Init == /\ \E names \in Names : /\ NormsOk(names) /\ StdOk(names) /\ Flat(names) /\ hist = names
                                /\ steps = Train([i \in DOMAIN names |-> Library[names[i]]], TrainRows, <<2>>)
        /\ runs = {}
\* runs are made and undone in any order; they don't share anything
Next == /\ \E row \in Inputs : \E lo \in 1..Len(steps), hi \in 1..Len(steps) : lo <= hi /\ Cardinality(runs) < MaxRuns
                /\ runs' = runs \cup {[row |-> row, lo |-> lo, hi |-> hi]}
        /\ UNCHANGED <<steps, hist>>
Spec == Init /\ [][Next]_vars
Part(lo, hi) == SubSeq(steps, lo, hi)
ShapeAt(lo) == IF lo = 1 THEN <<2>> ELSE Shapes(SubSeq(steps, 1, lo - 1), <<2>>)[lo]
RowAt(row, lo) == Run(SubSeq(steps, 1, lo - 1), row, <<2>>)
Reversible(lo, hi) == \A i \in lo..hi : steps[i].k \notin OneWay /\ steps[i].k # "slice"
\* undoing a run restores its input, with any part of the pipeline
RoundTrip == \A r \in runs : Reversible(r.lo, r.hi) =>
    LET x == RowAt(r.row, r.lo) IN Restored(Part(r.lo, r.hi), x, ShapeAt(r.lo)) = x
\* a slice that drops columns restores the ones it kept
SliceTrip == \A r \in runs : (\A i \in r.lo..r.hi : steps[i].k = "slice") =>
    LET x == RowAt(r.row, r.lo) y == Restored(Part(r.lo, r.hi), x, ShapeAt(r.lo)) IN \A j \in DOMAIN x : y[j] \in {x[j], Zero}
\* running the parts one after the other is running the whole
Composes == \A r \in runs : \A mid \in r.lo..r.hi - 1 :
    LET x == RowAt(r.row, r.lo) IN
    Run(Part(r.lo, r.hi), x, ShapeAt(r.lo)) = Run(Part(mid + 1, r.hi), Run(Part(r.lo, mid), x, ShapeAt(r.lo)), ShapeAt(mid + 1))
\* what was learned fits the training data of the step: zero mean and unit (or no) deviation
Learned == \A i \in DOMAIN steps : steps[i].k = "meanstd" =>
    LET before == [n \in DOMAIN TrainRows |-> Run(SubSeq(steps, 1, i - 1), TrainRows[n], <<2>>)]
        after == [n \in DOMAIN before |-> Fwd(steps[i], before[n], LastOf(ShapeAt(i)))]
    IN  \A j \in DOMAIN after[1] : Mean(Column(after, j)) = Zero /\ Var(Column(after, j)) \in {Zero, One}
Emit == runs = {} => PrintT("GEN " \o ToJson([steps |-> hist]))
=============================================================================
