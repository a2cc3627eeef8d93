--------------------------- MODULE AmplitudesTrace ---------------------------
(* Recorded scalings and summaries of real amplitudes against Amplitudes.    *)
(* Numbers that the code gave are in units of 1/100000.                      *)
EXTENDS Amplitudes, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
U == 100000
Close(r, v, tol) == IF Abs(r) > (Abs(v[1]) \div v[2] + 2) * U THEN FALSE ELSE Abs(r * v[2] - v[1] * U) <= tol * v[2]
CloseTable(res, t, tol) == /\ Len(res) = Len(t)
                           /\ \A i \in DOMAIN t : /\ Len(res[i]) = Len(t[i])
                                                  /\ \A j \in DOMAIN t[i] : Close(res[i][j], t[i][j], tol)
TraceInit == /\ c \in DOMAIN Cases /\ e = 1
             /\ x = Cases[c].x /\ form = Cases[c].form /\ k = Cases[c].k /\ was = Cases[c].x /\ hist = <<>>
JudgeStep(ev) ==
    IF ~Applies(ev.op, x, form, k) THEN "harness: not applicable"
    ELSE IF ~CloseTable(ev.res, After(ev.op, x, ev.axis, k), 5) THEN ev.op \o ": another table"
    ELSE IF ev.op = "instance" /\ ev.maxes # <<>> /\ ~CloseTable(ev.maxes, Maxes(x, ev.axis), 5) THEN "instance: other maxima"
    ELSE IF ~ev.dims THEN ev.op \o ": other dimensions"
    ELSE IF ~ev.kept THEN ev.op \o ": what was given has changed"
    ELSE ""
\* rows of levels; chunks went through a node one after the other
JudgeRows(ev) ==
    LET n == Len(ev.rows) IN
    IF Len(ev.res) # n THEN ev.op \o ": another number of frames"
    ELSE IF ~ev.dims THEN ev.op \o ": other dimensions"
    ELSE CASE ev.op = "flatness" -> IF \E i \in 1..n : ~Close(ev.res[i][1], Flat(ev.rows[i]), 5) THEN "flatness: another value" ELSE ""
           [] ev.op = "centroid" -> IF \E i \in 1..n : ~Close(ev.res[i][1], Centre(ev.rows[i]), 5) THEN "centroid: another value" ELSE ""
           \* in units of 1/1000 of twice the logarithm of two; ev.cos[q] is the q-th cosine wave, in the same units
           [] ev.op = "bfcc" -> IF \E i \in 1..n : Len(ev.res[i]) # Len(ev.cos) THEN "bfcc: another number of coefficients"
                                ELSE IF \E i \in 1..n : \E q \in DOMAIN ev.cos :
                                     Abs(ev.res[i][q] - Sum([j \in DOMAIN ev.rows[i] |-> ev.rows[i][j] * ev.cos[q][j]])) > 3 * Len(ev.rows[i]) + 3
                                THEN "bfcc: another value" ELSE ""
\* samples are levels p of 8; the category of each, and what comes back as a level
JudgeCategories(ev) ==
    IF ~ev.dims THEN "categorical: other dimensions"
    ELSE IF Len(ev.cats) # Len(ev.rows[1]) \/ Len(ev.back) # Len(ev.rows[1]) THEN "categorical: another number of samples"
    ELSE IF \E i \in DOMAIN ev.cats : Len(ev.cats[i]) # 1 THEN "categorical: not one category"
    ELSE LET mu == Pow2(ev.k) - 1 p == ev.rows[1] IN
         IF \E i \in DOMAIN p : Abs(2 * ev.k * ev.cats[i][1] - mu * (ev.k + p[i])) >= 2 * ev.k THEN "categorical: another category"
         ELSE IF \E i \in DOMAIN p : Abs(ev.back[i]) > 3 * U \/ Abs(ev.back[i] * mu - (2 * ev.cats[i][1] - mu) * U) > 20 * mu THEN "categorical: something else comes back"
         ELSE ""
Judge(ev) ==
    IF ev.st # "ok" THEN ev.op \o " failed"
    ELSE IF ev.op \in {"flatness", "centroid", "bfcc"} THEN JudgeRows(ev)
    ELSE IF ev.op = "categorical" THEN JudgeCategories(ev)
    ELSE JudgeStep(ev)
Moves(ev) == ev.op \notin {"flatness", "centroid", "bfcc", "categorical"}
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ IF Moves(ev) THEN x' = After(ev.op, x, ev.axis, k) /\ form' = FormAfter(ev.op, form) /\ was' = x
                              ELSE UNCHANGED <<x, form, was>>
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
                 /\ UNCHANGED <<x, form, was>>
        /\ UNCHANGED <<k, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
