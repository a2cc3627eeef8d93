------------------------------ MODULE FreqScale ------------------------------
(* C03 / C29.  A frequency scale as an ordered list of bands, the columns    *)
(* each band owns on an array axis, and the slices a client takes.           *)
(* A band is [s, e, c]: it covers [s, e) and owns the columns c (ids).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

\* ---- what the property says -------------------------------------------------
\* bands that overlap the request, or end exactly where it begins
Meets(b, s, e) == b.e >= s /\ b.s < e
Met(bands, s, e) == SelectSeq([i \in 1..Len(bands) |-> i], LAMBDA i : Meets(bands[i], s, e))

\* request [kind, s, e, hs, he]: "band" or "hz" (slice in hertz)
ReqS(bands, r) == IF r.kind = "band" THEN r.s
                  ELSE IF ~r.hs THEN 0
                  ELSE IF r.s < 0 THEN bands[Len(bands)].e + r.s ELSE r.s
ReqE(bands, r) == IF r.kind = "band" THEN r.e
                  ELSE IF ~r.he THEN bands[Len(bands)].e
                  ELSE IF r.e < 0 THEN bands[Len(bands)].e + r.e ELSE r.e
Legal(bands, r) == bands # <<>> /\ ReqS(bands, r) < ReqE(bands, r)

\* index ranges (lo..hi, 1-based, hi < lo when empty) the property allows.
\* exact: on axes with an explicit mapping a request for precisely one of the
\* scale's own bands returns that band alone.
Ranges(bands, r, even, explicit) ==
    LET s == ReqS(bands, r)
        e == ReqE(bands, r)
        m == Met(bands, s, e)
        own == {i \in 1..Len(bands) : bands[i].s = s /\ bands[i].e = e}
        n == Len(bands)
    IN  IF explicit /\ r.kind = "band" /\ own # {} THEN {<<i, i>> : i \in own}
        ELSE IF m = <<>> THEN {<<1, 0>>}
        ELSE LET lo == m[1] hi == m[Len(m)] IN
             IF even /\ (hi - lo + 1) % 2 = 1 /\ n > hi - lo + 1
             THEN (IF hi < n THEN {<<lo, hi + 1>>} ELSE {}) \cup
                  (IF lo > 1 THEN {<<lo - 1, hi>>} ELSE {})
             ELSE {<<lo, hi>>}

Cols(bands) == FlattenSeq([i \in 1..Len(bands) |-> bands[i].c])
Edges(bands) == [i \in 1..Len(bands) |-> <<bands[i].s, bands[i].e>>]

\* closed form used by implementations: two binary searches
LoIdx(bands, s) == Cardinality({i \in 1..Len(bands) : bands[i].e < s}) + 1
HiIdx(bands, e) == Cardinality({i \in 1..Len(bands) : bands[i].s < e})

\* scale equality
SameScale(a, b) == Edges(a) = Edges(b)

\* ---- state machine ------------------------------------------------------------
CONSTANTS Depth
VARIABLES scale0, bands, explicit, hist
vars == <<scale0, bands, explicit, hist>>

Lin(n, off, w) == [i \in 1..n |-> [s |-> off + (i - 1) * w, e |-> off + i * w, c |-> <<i>>]]
\* overlapping bands with several columns each
Geo(n) == [i \in 1..n |-> [s |-> i * i * 2, e |-> (i + 1) * (i + 1) * 2 + 3,
                           c |-> [j \in 1..(1 + (i % 3)) |-> i * 10 + j]]]
\* bands with gaps between them
Gap(n) == [i \in 1..n |-> [s |-> 10 * i, e |-> 10 * i + 6, c |-> <<i * 10 + 1, i * 10 + 2>>]]

Starts == {<<Lin(1, 0, 4), FALSE>>, <<Lin(5, 0, 4), FALSE>>, <<Lin(4, 8, 4), FALSE>>, <<Geo(4), TRUE>>, <<Gap(3), TRUE>>}
Points(b) == {0, 1} \cup UNION {{b[i].s, b[i].s + 1, b[i].e, b[i].e - 1, b[i].e + 1} : i \in 1..Len(b)}
Init == /\ \E s \in Starts : scale0 = s[1] /\ explicit = s[2]
        /\ bands = scale0 /\ hist = <<>>
Reqs(b) == [kind : {"band"}, s : Points(b), e : Points(b), hs : {TRUE}, he : {TRUE}]
           \cup (IF explicit THEN {} ELSE
                 [kind : {"hz"}, s : {0, 4, 7, 9, -3, -4}, e : {0}, hs : {TRUE}, he : {FALSE}]
                 \cup [kind : {"hz"}, s : {0}, e : {4, 7, 9, 12, -4, -5}, hs : {FALSE}, he : {TRUE}]
                 \cup [kind : {"hz"}, s : {0, 5, -7, -4}, e : {8, 11, -1}, hs : {TRUE}, he : {TRUE}])
Slice(r) == /\ Legal(bands, r)
            /\ \E rg \in Ranges(bands, r, FALSE, explicit) :
                 /\ rg[1] <= rg[2]
                 /\ bands' = SubSeq(bands, rg[1], rg[2])
            /\ hist' = Append(hist, r)
            /\ UNCHANGED <<scale0, explicit>>
Next == Len(hist) < Depth /\ \E r \in Reqs(scale0) : Slice(r)
Spec == Init /\ [][Next]_vars

\* ---- invariants -----------------------------------------------------------------
IsRun == \E lo \in 1..Len(scale0) : \E hi \in lo..Len(scale0) : bands = SubSeq(scale0, lo, hi)
MetIsARun == \A s \in Points(scale0) : \A e \in Points(scale0) : s < e =>
    LET m == Met(bands, s, e) IN \A i \in 1..(Len(m) - 1) : m[i + 1] = m[i] + 1
BinarySearchExact == \A s \in Points(scale0) : \A e \in Points(scale0) : s < e =>
    Met(bands, s, e) = [i \in 1..(HiIdx(bands, e) - LoIdx(bands, s) + 1) |-> LoIdx(bands, s) + i - 1]
OwnBandIsIncluded == \A i \in 1..Len(bands) :
    \E j \in 1..Len(Met(bands, bands[i].s, bands[i].e)) : Met(bands, bands[i].s, bands[i].e)[j] = i
View == <<scale0, bands, explicit, Len(hist)>>

Emit == Len(hist) = Depth =>
    PrintT("GEN " \o ToJson([bands |-> scale0, explicit |-> explicit, ops |-> hist]))
=============================================================================
