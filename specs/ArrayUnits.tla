------------------------------ MODULE ArrayUnits ------------------------------
(* C02.  An array with units: shape, one dimension label per axis, and the   *)
(* values in row-major order; the operations a client composes.               *)
(* Labels: [k |-> "I"] plain, [k |-> "T", f, d] time, [k |-> "F", lo, hi]     *)
(* the bands lo..hi-1 of a frequency scale.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Ident == [k |-> "I", a |-> 0, b |-> 0]
Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA x, y : IF x > y THEN x ELSE y, s[1], s)

\* coordinates (0-based) of flat position p (0-based), and back
RECURSIVE Unflat(_, _)
Unflat(shape, p) ==
    IF shape = <<>> THEN <<>>
    ELSE LET rest == Prod(Tail(shape))
         IN  <<p \div rest>> \o Unflat(Tail(shape), p % rest)
Flat(shape, co) ==
    FoldLeft(LAMBDA acc, i : acc * shape[i] + co[i], 0, [i \in 1..Len(shape) |-> i])

At(x, co) == x.data[Flat(x.shape, co) + 1]
Build(shape, F(_)) == [p \in 1..Prod(shape) |-> F(Unflat(shape, p - 1))]

WellFormed(x) == /\ Len(x.dims) = Len(x.shape)
                 /\ Len(x.data) = Prod(x.shape)
                 /\ \A i \in 1..Len(x.shape) :
                       x.dims[i].k = "F" => x.dims[i].b - x.dims[i].a = x.shape[i]

\* ---- indexing -------------------------------------------------------------------
\* item: [t |-> "int", v] | [t |-> "sl", ha, a, hb, b] | [t |-> "list", v] |
\*       [t |-> "unit", a, b] | [t |-> "none"] | [t |-> "ell"]
Full == [t |-> "sl", ha |-> FALSE, a |-> 0, hb |-> FALSE, b |-> 0, v |-> <<>>]
Consumes(it) == it.t \notin {"none", "ell"}
NConsumed(ix) == Len(SelectSeq(ix, Consumes))

Expand(ix, rank) ==
    LET fill == [i \in 1..(rank - NConsumed(ix)) |-> Full]
        ell == {i \in 1..Len(ix) : ix[i].t = "ell"}
    IN  IF ell = {} THEN ix \o fill
        ELSE LET e == CHOOSE i \in ell : TRUE
             IN  SubSeq(ix, 1, e - 1) \o fill \o SubSeq(ix, e + 1, Len(ix))

Clamp(v, n) == LET w == IF v < 0 THEN v + n ELSE v
               IN  IF w < 0 THEN 0 ELSE IF w > n THEN n ELSE w
Lo(it, n) == IF it.t = "unit" THEN it.a ELSE IF it.ha THEN Clamp(it.a, n) ELSE 0
Hi(it, n) == IF it.t = "unit" THEN it.b ELSE IF it.hb THEN Clamp(it.b, n) ELSE n
Pos(v, n) == IF v < 0 THEN v + n ELSE v

Selected(it, n) ==
    IF it.t = "int" THEN <<Pos(it.v[1], n)>>
    ELSE IF it.t = "list" THEN [i \in 1..Len(it.v) |-> Pos(it.v[i], n)]
    ELSE LET lo == Lo(it, n) hi == Hi(it, n)
         IN  [i \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> lo + i - 1]

\* axis of x consumed by item i of an expanded index
AxisOf(ex, i) == NConsumed(SubSeq(ex, 1, i))

IndexLegal(x, ix) ==
    /\ NConsumed(ix) <= Len(x.shape)
    /\ Cardinality({i \in 1..Len(ix) : ix[i].t = "ell"}) <= 1
    /\ Cardinality({i \in 1..Len(ix) : ix[i].t = "list"}) <= 1
    /\ (\E i \in 1..Len(ix) : ix[i].t = "list") =>
            ~ \E i \in 1..Len(ix) : ix[i].t \in {"int", "none"}
    /\ LET ex == Expand(ix, Len(x.shape)) IN
       \A i \in 1..Len(ex) : Consumes(ex[i]) =>
          LET a == AxisOf(ex, i) n == x.shape[a] sel == Selected(ex[i], n) IN
            /\ \A j \in 1..Len(sel) : sel[j] \in 0..(n - 1)
            /\ x.dims[a].k = "F" => Len(sel) > 0
            /\ ex[i].t = "unit" => /\ x.dims[a].k # "I"
                                   /\ ex[i].a < ex[i].b /\ ex[i].b <= n

NewDim(dim, it, n) ==
    IF it.t \in {"none", "list"} THEN Ident
    ELSE IF dim.k = "F" THEN [k |-> "F", a |-> dim.a + Lo(it, n), b |-> dim.a + Hi(it, n)]
    ELSE dim

Index(x, ix) ==
    LET ex == Expand(ix, Len(x.shape))
        out == SelectSeq([i \in 1..Len(ex) |-> i], LAMBDA i : ex[i].t # "int")
        Sel(i) == Selected(ex[i], x.shape[AxisOf(ex, i)])
        shape == [j \in 1..Len(out) |->
                    IF ex[out[j]].t = "none" THEN 1 ELSE Len(Sel(out[j]))]
        dims == [j \in 1..Len(out) |->
                    IF ex[out[j]].t = "none" THEN Ident
                    ELSE LET a == AxisOf(ex, out[j])
                         IN  NewDim(x.dims[a], ex[out[j]], x.shape[a])]
        item == [a \in 1..Len(x.shape) |->
                    CHOOSE i \in 1..Len(ex) : Consumes(ex[i]) /\ AxisOf(ex, i) = a]
        Src(co) == [a \in 1..Len(x.shape) |->
                      IF ex[item[a]].t = "int" THEN Sel(item[a])[1]
                      ELSE LET j == CHOOSE j \in 1..Len(out) : out[j] = item[a]
                           IN  Sel(item[a])[co[j] + 1]]
    IN  [shape |-> shape, dims |-> dims,
         data |-> Build(shape, LAMBDA co : At(x, Src(co)))]

\* assignment of one value through an index
Assign(x, ix, v) ==
    LET ex == Expand(ix, Len(x.shape))
        Hit(co) == \A i \in 1..Len(ex) : Consumes(ex[i]) =>
            LET a == AxisOf(ex, i) sel == Selected(ex[i], x.shape[a])
            IN  \E j \in 1..Len(sel) : sel[j] = co[a]
    IN  [x EXCEPT !.data = Build(x.shape, LAMBDA co : IF Hit(co) THEN v ELSE At(x, co))]

\* ---- whole-array operations --------------------------------------------------------
Transpose(x) ==
    [shape |-> Reverse(x.shape), dims |-> Reverse(x.dims),
     data |-> Build(Reverse(x.shape), LAMBDA co : At(x, Reverse(co)))]

NotOne(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] # 1)
Squeeze(x) ==
    LET keep == NotOne(x.shape)
    IN  [shape |-> [j \in 1..Len(keep) |-> x.shape[keep[j]]],
         dims |-> [j \in 1..Len(keep) |-> x.dims[keep[j]]],
         data |-> x.data]

Drop1(s) == SelectSeq(s, LAMBDA v : v # 1)
\* adding or removing size-one axes keeps the labels; any other new shape is
\* unlabelled
Reshape(x, shape) ==
    IF shape = Drop1(x.shape) THEN Squeeze(x)
    ELSE IF x.shape = Drop1(shape)
      THEN [shape |-> shape, data |-> x.data,
            dims |-> [i \in 1..Len(shape) |->
                        IF shape[i] = 1 THEN Ident
                        ELSE x.dims[Len(Drop1(SubSeq(shape, 1, i)))]]]
    ELSE [shape |-> shape, data |-> x.data, dims |-> [i \in 1..Len(shape) |-> Ident]]

\* reduction over a set of axes
Reduce(x, axes, keep, op) ==
    LET rest == SelectSeq([i \in 1..Len(x.shape) |-> i], LAMBDA i : i \notin axes)
        ordered == SelectSeq([i \in 1..Len(x.shape) |-> i], LAMBDA i : i \in axes)
        rshape == [j \in 1..Len(ordered) |-> x.shape[ordered[j]]]
        oshape == [j \in 1..Len(rest) |-> x.shape[rest[j]]]
        Co(o, r) == [a \in 1..Len(x.shape) |->
                        IF a \in axes
                        THEN r[CHOOSE j \in 1..Len(ordered) : ordered[j] = a]
                        ELSE o[CHOOSE j \in 1..Len(rest) : rest[j] = a]]
        Vals(o) == Build(rshape, LAMBDA r : At(x, Co(o, r)))
        vals == Build(oshape, LAMBDA o : IF op = "sum" THEN SumSeq(Vals(o)) ELSE MaxSeq(Vals(o)))
    IN  IF keep
        THEN [shape |-> [i \in 1..Len(x.shape) |-> IF i \in axes THEN 1 ELSE x.shape[i]],
              dims |-> [i \in 1..Len(x.shape) |-> IF i \in axes THEN Ident ELSE x.dims[i]],
              data |-> vals]
        ELSE [shape |-> oshape, dims |-> [j \in 1..Len(rest) |-> x.dims[rest[j]]],
              data |-> vals]

\* concatenation with (a slice of) itself along an axis
ConcatOK(x, y, axis) ==
    /\ Len(x.shape) = Len(y.shape)
    /\ x.dims = y.dims
    /\ \A i \in 1..Len(x.shape) : i # axis => x.shape[i] = y.shape[i]
    /\ x.dims[axis].k # "F"
Concat(x, y, axis) ==
    LET shape == [x.shape EXCEPT ![axis] = @ + y.shape[axis]]
    IN  [shape |-> shape, dims |-> x.dims,
         data |-> Build(shape, LAMBDA co :
                    IF co[axis] < x.shape[axis] THEN At(x, co)
                    ELSE At(y, [co EXCEPT ![axis] = @ - x.shape[axis]]))]

Scale(x, v) == [x EXCEPT !.data = [p \in DOMAIN x.data |-> x.data[p] * v]]

\* ---- state machine (bounded) ----------------------------------------------------------
ShapesA == {<<2, 3>>, <<1, 2>>}
ShapesB == {<<3, 2>>, <<2>>, <<2, 1, 3>>}
CONSTANTS Shapes, Kinds, Depth
VARIABLES x, x0, hist
vars == <<x, x0, hist>>

DimFor(kind, n) == CASE kind = "I" -> Ident
                     [] kind = "T" -> [k |-> "T", a |-> 10, b |-> 15]
                     [] kind = "F" -> [k |-> "F", a |-> 0, b |-> n]

Init == /\ \E s \in Shapes : \E ks \in [1..Len(s) -> Kinds] :
              x = [shape |-> s, dims |-> [i \in 1..Len(s) |-> DimFor(ks[i], s[i])],
                   data |-> [p \in 1..Prod(s) |-> p]]
        /\ x0 = x
        /\ hist = <<>>

It(t, a, b, v) == [t |-> t, ha |-> TRUE, a |-> a, hb |-> TRUE, b |-> b, v |-> v]
Items == { It("int", 0, 0, <<1>>), It("int", 0, 0, <<-1>>),
           It("sl", 1, 2, <<>>), It("sl", 0, -1, <<>>), Full,
           It("list", 0, 0, <<1, 0>>), It("unit", 1, 2, <<>>), It("unit", 0, 2, <<>>),
           It("none", 0, 0, <<>>), It("ell", 0, 0, <<>>) }
Indexes == UNION {[1..n -> Items] : n \in 1..3}
\* keep the enumeration small: at most one ellipsis, two new axes
SmallIx == {ix \in Indexes : /\ Cardinality({i \in DOMAIN ix : ix[i].t = "ell"}) <= 1
                             /\ Cardinality({i \in DOMAIN ix : ix[i].t = "none"}) <= 1
                             /\ Cardinality({i \in DOMAIN ix : ix[i].t = "list"}) <= 1}

Act(op, y) == /\ Len(hist) < Depth /\ x' = y /\ hist' = Append(hist, op) /\ UNCHANGED x0
DoIndex == \E ix \in SmallIx :
    /\ IndexLegal(x, ix)
    /\ Act([op |-> "index", ix |-> ix, axes |-> <<>>, keep |-> FALSE, shape |-> <<>>], Index(x, ix))
DoT == Act([op |-> "T", ix |-> <<>>, axes |-> <<>>, keep |-> FALSE, shape |-> <<>>], Transpose(x))
DoSqueeze == Act([op |-> "squeeze", ix |-> <<>>, axes |-> <<>>, keep |-> FALSE, shape |-> <<>>], Squeeze(x))
DoReduce == \E op \in {"sum", "max"} : \E axes \in SUBSET (1..Len(x.shape)) : \E keep \in BOOLEAN :
    /\ axes # {} /\ \A i \in 1..Len(x.shape) : x.shape[i] > 0
    /\ (keep \/ axes # 1..Len(x.shape))
    /\ Act([op |-> op, ix |-> <<>>, axes |-> SetToSeq(axes), keep |-> keep, shape |-> <<>>],
           Reduce(x, axes, keep, op))
DoReshape == \E p \in 1..(Len(x.shape) + 1) :
    LET s == SubSeq(x.shape, 1, p - 1) \o <<1>> \o SubSeq(x.shape, p, Len(x.shape))
    IN  Act([op |-> "reshape", ix |-> <<>>, axes |-> <<>>, keep |-> FALSE, shape |-> s], Reshape(x, s))
Next == Len(hist) < Depth /\ (DoIndex \/ DoT \/ DoSqueeze \/ DoReduce \/ DoReshape)
Spec == Init /\ [][Next]_vars

TypeOK == WellFormed(x)
\* labels are never invented: only plain, or derived from the source's labels
NoInvention == \A i \in 1..Len(x.dims) : x.dims[i].k \in Kinds \cup {"I"}
\* a frequency label shrinks but stays inside the original scale
BandsInside == \A i \in 1..Len(x.dims) : x.dims[i].k = "F" => 0 <= x.dims[i].a /\ x.dims[i].a < x.dims[i].b
TwiceT == Transpose(Transpose(x)) = x
SqueezeIdem == Squeeze(Squeeze(x)) = Squeeze(x)
SumConserves == (Len(x.shape) > 0 /\ \A i \in 1..Len(x.shape) : x.shape[i] > 0) =>
    SumSeq(Reduce(x, {1}, TRUE, "sum").data) = SumSeq(x.data)
View == <<x, Len(hist)>>

Emit == Len(hist) = Depth =>
    PrintT("GEN " \o ToJson([shape |-> x0.shape, dims |-> x0.dims, ops |-> hist]))
=============================================================================
