------------------------- MODULE VariableRateTrace -------------------------
EXTENDS VariableRate, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
tvars == <<ser, hist, c, l>>
Ops == Cases[c].ops
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ hist = <<>> /\ ser = <<>>

Expected(e) ==
    IF e.op = "build" THEN e.q
    ELSE IF e.op = "concat" THEN ser \o e.q
    ELSE IF e.op = "query" THEN Query(ser, e.r)
    ELSE IF e.op = "cut" THEN SubSeq(ser, e.i + 1, e.j)
    ELSE IF e.op = "item" THEN <<ser[e.i + 1]>>
    ELSE ser
Name(e) == CASE e.op = "build" -> "a new series" [] e.op = "concat" -> "concatenation" [] e.op = "query" -> "a query"
             [] e.op = "cut" -> "a positional slice" [] e.op = "item" -> "an item" [] OTHER -> "a stored series read back"
Clause(e) ==
    IF e.op = "cut" /\ ~(0 <= e.i /\ e.i <= e.j /\ e.j <= Len(ser)) THEN "harness: cut"
    ELSE IF e.op = "item" /\ ~(0 <= e.i /\ e.i < Len(ser)) THEN "harness: item"
    ELSE IF e.st # "ok" THEN Name(e) \o " raised " \o e.st
    ELSE IF ~SameBag(e.res, Expected(e)) THEN Name(e) \o " does not hold exactly the entries it should"
    ELSE IF ~Sorted(e.res) THEN Name(e) \o " is not sorted by start"
    ELSE IF e.op # "item" /\ e.len # Len(e.res) THEN Name(e) \o ": wrong length"
    ELSE IF e.op # "item" /\ (e.span # SpanOf(e.res) \/ e.end # EndOf(SpanOf(e.res)))
         THEN Name(e) \o ": the span does not reach from the earliest start to the latest end"
    ELSE ""
Apply(e) == IF e.op = "item" THEN ser ELSE e.res
Step == /\ l <= Len(Ops)
        /\ LET e == Ops[l] k == Clause(Ops[l]) IN
            IF k = "" THEN ser' = Apply(e) /\ l' = l + 1
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(l) \o " " \o k)
                 /\ l' = Len(Ops) + 2 /\ UNCHANGED ser
        /\ UNCHANGED <<hist, c>>
Done == /\ l = Len(Ops) + 1 /\ PrintT("OK " \o ToString(c))
        /\ l' = l + 1 /\ UNCHANGED <<ser, hist, c>>
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
=============================================================================
