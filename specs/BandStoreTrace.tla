--------------------------- MODULE BandStoreTrace ---------------------------
(* Each event is an operation on a real representation and what is then read  *)
(* of it: obs.bands (each band by its own name), obs.whole (the rows of all   *)
(* columns), the edges of its bands, its moments (freq, dur).  Kinds of cases:*)
(* "ops" (a history), "chain" (bands taken from a spectrum, and put back),    *)
(* "parts" (a sound taken apart into bands by its components).                *)
EXTENDS BandStore, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ edges = <<>> /\ bands = <<>> /\ mat = <<>> /\ offs = <<>> /\ hist = <<>>

NewBands(ev) ==
    IF ev.op \in {"build", "like"} THEN ev.cells
    ELSE IF ev.op = "set" THEN SetCells(bands, ev.b1, ev.b2, ev.t1, ev.t2, ev.cells)
    ELSE IF ev.op = "range" THEN TakeBands(bands, ev.b1, ev.b2)
    ELSE IF ev.op = "time" THEN TakeTime(bands, ev.t1, ev.t2)
    ELSE IF ev.op = "join" THEN Join(bands, ev.cells)
    ELSE IF ev.op = "weigh" THEN Weigh(bands, ev.ws)
    ELSE bands
NewEdges(ev) == IF ev.op = "build" THEN ev.edges ELSE IF ev.op = "range" THEN SubSeq(edges, ev.b1, ev.b2) ELSE edges

Look(ev, bs, es) ==
    LET o == ev.obs IN
    IF ev.st # "ok" THEN "an operation failed"
    ELSE IF o.n # Len(es) \/ o.edges # es THEN "has other bands than it should"
    ELSE IF o.whole # Columns(bs, Len(bs[1])) THEN "the columns are not those of the bands, in order"
    ELSE IF o.bands # bs THEN "reading a band gives something else than was put in"
    ELSE IF o.named # es THEN "a band which was read has another name"
    ELSE IF o.freq # K.freq \/ o.dur # K.dur \/ o.bandtime # [b \in 1..Len(es) |-> <<K.freq, K.dur>>]
         THEN "moments are not when they were"
    ELSE IF ev.fa /\ ~o.fa THEN "is not a multi-resolution representation any more"
    ELSE ""

Square(ev) ==
    IF ev.st # "ok" THEN "an operation failed"
    ELSE IF ev.sq.edges # edges THEN "the square view has other bands"
    ELSE IF ev.sq.step # ev.sq.wantstep THEN "coefficients of the square view are not when they should be"
    ELSE IF ev.sq.hop = 0 THEN
        IF ev.sq.freq # K.freq \/ ev.sq.dur # K.dur THEN "moments of the square view are not when they should be"
        ELSE IF ev.sq.out # Squared(bands, ev.sq.n) THEN "the square view holds other values" ELSE ""
    ELSE IF ev.sq.out # OverlapAdd(bands, ev.sq.n, ev.sq.hop) THEN "moments laid over each other hold other values"
    ELSE ""

\* ---- bands taken from a spectrum ---------------------------------------------
Taken(ev) == [b \in 1..Len(ev.runs) |-> [t \in 1..Len(ev.x) |->
                 [k \in 1..(ev.runs[b][2] - ev.runs[b][1] + 1) |-> ev.win[b][k] * ev.x[t][ev.runs[b][1] + k - 1]]]]
PutBack(ev) == [t \in 1..Len(ev.x) |-> [col \in 1..Len(ev.x[1]) |->
                 LET has == {b \in 1..Len(ev.runs) : col \in ev.runs[b][1]..ev.runs[b][2]} IN
                 SumOver([b \in has |-> Taken(ev)[b][t][col - ev.runs[b][1] + 1]], has)]]
Chain(ev) == IF ev.st # "ok" THEN "taking bands from a spectrum failed"
             ELSE IF ev.taken # Taken(ev) THEN "a band is not the transform of its part of the spectrum"
             ELSE IF ev.back # PutBack(ev) THEN "the bands are not put back to where they came from"
             ELSE ""

\* ---- a sound taken apart -------------------------------------------------------
\* comps: [f, a] cycles and amplitude; a band of `size` samples carries what has fewer than size/2 cycles
Belongs(ev, f) == CHOOSE i \in 1..Len(ev.sizes) : 2 * f < ev.sizes[i] /\ \A j \in 1..(i - 1) : 2 * f >= ev.sizes[j]
Expect(ev, row, i) == SelectSeq(ev.comps[row], LAMBDA x : Belongs(ev, x[1]) = i)
Parts(ev) == IF ev.st # "ok" THEN "taking a sound apart failed"
             ELSE IF ev.widths # ev.sizes THEN "bands have other sizes than asked for"
             ELSE IF ev.edges # ev.wantedges THEN "bands have other edges than their sizes mean"
             ELSE IF \E r \in 1..Len(ev.comps) : \E i \in 1..Len(ev.sizes) : ev.got[r][i] # Expect(ev, r, i)
                  THEN "a component is not in the band it belongs to"
             ELSE IF \E r \in 1..Len(ev.comps) : ev.sum[r] # SelectSeq(ev.comps[r], LAMBDA x : ev.all \/ Belongs(ev, x[1]) - 1 \in ToSet(ev.chosen))
                  THEN "the bands do not add up to the sound"
             ELSE ""

Judge(ev) == IF ev.op = "square" THEN Square(ev)
             ELSE IF ev.op = "chain" THEN Chain(ev)
             ELSE IF ev.op = "parts" THEN Parts(ev)
             ELSE IF ev.op = "columns" THEN
                 IF ev.st # "ok" THEN "an operation failed"
                 ELSE IF ev.obs.whole # [t \in 1..Len(bands[1]) |-> SubSeq(Columns(bands, Len(bands[1]))[t], ev.b1, ev.b2)] THEN "columns hold other values"
                 ELSE IF ev.obs.n # 0 THEN "columns which are no bands are said to be bands" ELSE ""
             ELSE Look(ev, NewBands(ev), NewEdges(ev))
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ IF ev.op \in {"square", "chain", "parts", "columns"} THEN UNCHANGED <<bands, edges>>
                              ELSE bands' = NewBands(ev) /\ edges' = NewEdges(ev)
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED <<bands, edges>>
        /\ UNCHANGED <<mat, offs, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
