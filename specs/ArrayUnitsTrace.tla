--------------------------- MODULE ArrayUnitsTrace ---------------------------
EXTENDS ArrayUnits, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
tvars == <<x, x0, hist, c, l>>
Ops == Cases[c].ops
TraceInit == /\ c \in DOMAIN Cases /\ l = 1 /\ hist = <<>>
             /\ x = Cases[c].start /\ x0 = x

AxisSet(s) == {s[i] : i \in 1..Len(s)}
Illegal(ev) == \/ ev.op \in {"index", "assign"} /\ ~IndexLegal(x, ev.ix)
               \/ ~WellFormed(x)
Rejected(ev) == \/ ev.op = "concat" /\ ~ConcatOK(x, ev.y, ev.axes[1])
                \/ ev.op = "wrap" /\ ~WellFormed([x EXCEPT !.dims = ev.y.dims])
Expected(ev) ==
    CASE ev.op = "index" -> Index(x, ev.ix)
      [] ev.op = "assign" -> Assign(x, ev.ix, ev.v)
      [] ev.op = "T" -> Transpose(x)
      [] ev.op = "squeeze" -> Squeeze(x)
      [] ev.op = "reshape" -> Reshape(x, ev.shape)
      [] ev.op \in {"sum", "max"} -> Reduce(x, AxisSet(ev.axes), ev.keep, ev.op)
      [] ev.op = "concat" -> Concat(x, ev.y, ev.axes[1])
      [] ev.op = "scale" -> Scale(x, ev.v)
      [] ev.op = "wrap" -> [x EXCEPT !.dims = ev.y.dims]

Clause(ev) ==
    IF Illegal(ev) THEN "harness: illegal operation"
    ELSE IF Rejected(ev) THEN IF ev.st = "ok" THEN ev.op \o " accepts what cannot be labelled" ELSE ""
    ELSE IF ev.st # "ok" THEN ev.op \o " raised " \o ev.st
    ELSE LET e == Expected(ev) r == ev.res IN
      IF Len(r.dims) # Len(r.shape) THEN ev.op \o ": not one dimension per axis"
      ELSE IF r.shape # e.shape THEN ev.op \o ": shape differs from the plain operation"
      ELSE IF r.data # e.data THEN ev.op \o ": values differ from the plain operation"
      ELSE IF r.dims # e.dims THEN ev.op \o ": wrong dimension on an axis"
      ELSE IF \E i \in 1..Len(r.dims) : r.dims[i].k = "T" /\ r.sizes[i] # r.shape[i]
           THEN ev.op \o ": time axis does not know its length"
      ELSE ""

Core(r) == [shape |-> r.shape, dims |-> r.dims, data |-> r.data]
Step == /\ l <= Len(Ops)
        /\ LET ev == Ops[l] k == Clause(Ops[l]) IN
            IF k = "" THEN /\ x' = (IF Rejected(ev) THEN x ELSE Core(ev.res))
                           /\ l' = l + 1
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(l) \o " " \o k)
                 /\ l' = Len(Ops) + 2 /\ UNCHANGED x
        /\ UNCHANGED <<x0, hist, c>>
Done == /\ l = Len(Ops) + 1
        /\ PrintT("OK " \o ToString(c))
        /\ l' = l + 1 /\ UNCHANGED <<x, x0, hist, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
