---------------------------- MODULE ListingTrace ----------------------------
(* The source of a case is made of items; those that are wanted are to be     *)
(* shown as Shown says.  Every event is a step of a walk through a dataset of  *)
(* zounds.datasets made of that source.                                       *)
EXTENDS Listing, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
Item(i) == K.pages[i[1]][i[2]]
Named(page, n) == LET k == CHOOSE k \in DOMAIN page : page[k].name = n IN page[k]
\* how an item is to be shown, according to the kind of source it belongs to
Shown(i) ==
    LET it == Item(i) page == K.pages[i[1]] IN
    IF it.kind = "freesound" THEN
        [url |-> it.preview, query |-> "token=" \o it.key, method |-> "GET", samplerate |-> it.samplerate,
         channels |-> it.channels, licensing |-> it.license, description |-> it.description, tags |-> it.tags,
         web_url |-> "https://freesound.org/people/" \o it.username \o "/sounds/" \o it.name \o "/"]
    ELSE IF it.kind = "archive" THEN
        LET own == IF it.fields.source = "original" THEN it ELSE Named(page, "/" \o it.fields.original) IN
        [url |-> "https://archive.org/download/" \o it.archive \o it.name, query |-> "", method |-> "GET",
         web_url |-> "https://archive.org//details/" \o it.archive] @@ it.attrs @@ own.fields
    ELSE IF it.kind = "phat" THEN
        [url |-> "http://phatdrumloops.com" \o it.name, query |-> "", method |-> "GET",
         web_url |-> "http://www.phatdrumloops.com/beats.php"] @@ it.attrs
    ELSE IF it.kind = "nsynth" THEN
        [url |-> "https://magenta.tensorflow.org/datasets/nsynth/" \o it.name, content |-> it.name,
         web_url |-> "https://magenta.tensorflow.org/datasets/nsynth"] @@ it.fields
    ELSE IF it.kind = "musicnet" THEN
        [url |-> "https://homes.cs.washington.edu/~thickstn/media/" \o it.name, content |-> it.name,
         samplerate |-> "44100"] @@ it.fields
    ELSE [path |-> it.name]
TraceInit == /\ c \in DOMAIN Cases /\ e = 1 /\ limit = K.limit
             /\ pages = [p \in DOMAIN K.pages |-> [k \in DOMAIN K.pages[p] |-> K.pages[p][k].want]]
             /\ at = <<>> /\ out = [w \in Walkers |-> <<>>] /\ over = {} /\ hist = <<>>
Seen(w) == {out[w][j] : j \in DOMAIN out[w]}
Open(W, w) == IF K.ordered THEN {W[Len(out[w]) + 1]} ELSE {W[j] : j \in DOMAIN W} \ Seen(w)
Match(W, ev) == {i \in Open(W, ev.w) : Shown(i) = ev.rec}
Judge(ev, W) ==
    IF ev.st = "error" THEN "the walk failed"
    ELSE IF ev.op = "begin" THEN ""
    ELSE IF ev.st = "end" THEN IF Len(out[ev.w]) < Len(W) THEN "the end came too early" ELSE ""
    ELSE IF Len(out[ev.w]) >= limit THEN "more items than were asked for"
    ELSE IF Len(out[ev.w]) >= Len(W) THEN "more items than there are"
    ELSE IF Match(W, ev) # {} THEN ""
    ELSE IF \E i \in Seen(ev.w) : Shown(i) = ev.rec THEN "an item was given twice"
    ELSE "not the item whose turn it is, or described wrongly"
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] W == Whole(pages, limit) m == Judge(ev, W) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ out' = [out EXCEPT ![ev.w] = IF ev.op = "begin" THEN <<>> ELSE IF ev.st = "end" THEN @
                                                           ELSE Append(@, CHOOSE i \in Match(W, ev) : TRUE)]
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2 /\ UNCHANGED out
        /\ UNCHANGED <<pages, limit, at, over, hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ PrintT("OK " \o ToString(c))
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
