--------------------------- MODULE SearchPageTrace ---------------------------
(* Recorded visits of a real search application against SearchPage.          *)
EXTENDS SearchPage, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, e
tvars == <<vars, c, e>>
K == Cases[c]
TraceInit == c \in DOMAIN Cases /\ e = 1 /\ entries = <<>> /\ pages = <<>> /\ hist = <<>>
Hits(ev) == {<<h[1], h[2], h[3]>> : h \in SetOf(ev.hits)}
Judge(ev) ==
    IF ev.op = "add" THEN IF ev.st = 200 THEN "" ELSE "adding a document failed"
    ELSE IF ev.op = "page" THEN IF ev.st # 200 \/ ev.ctype # "text/html" THEN "the search page is not served"
                                ELSE IF ~ev.ok THEN "the search page lacks its scripts" ELSE ""
    ELSE IF ev.op = "open" THEN IF ev.st # 200 THEN "the link of a hit does not work" ELSE IF ~ev.ok THEN "the link of a hit leads to something else" ELSE ""
    ELSE IF ev.st # 200 THEN "no answer"
    ELSE IF ev.ctype # "application/vnd.zounds.searchresults+json" THEN "the answer is not labelled as search results"
    ELSE IF ~ev.ok THEN "a hit has another document, time or link"
    ELSE IF ev.op = "ask" /\ ev.q # ev.code THEN "the page is of another query"
    ELSE IF ev.op = "follow" /\ ev.q # pages[ev.page].q THEN "the page is of another query"
    ELSE IF ev.op = "random" /\ \A i \in DOMAIN entries : entries[i][3] # ev.q THEN "the query of a random page is not in the index"
    ELSE IF Len(ev.hits) # Cardinality(Hits(ev)) THEN "a hit is shown twice"
    ELSE Wrong(entries, ev.q, K.n, Hits(ev))
\* random pages are not all of the same query, when there are enough of them to tell
Spread == LET R == {i \in DOMAIN K.events : K.events[i].op = "random"} IN
             \/ Cardinality(R) < 40
             \/ Cardinality({entries[i][3] : i \in DOMAIN entries}) < 2
             \/ \E i, j \in R : K.events[i].q # K.events[j].q
Play == /\ e <= Len(K.events)
        /\ LET ev == K.events[e] m == Judge(ev) IN
            IF m = "" THEN /\ e' = e + 1
                           /\ entries' = IF ev.op = "add" THEN entries \o [i \in DOMAIN ev.codes |-> <<ev.doc, i - 1, ev.codes[i]>>] ELSE entries
                           /\ pages' = IF ev.op \in {"ask", "follow", "random"} THEN Append(pages, [q |-> ev.q, hits |-> Hits(ev)]) ELSE pages
            ELSE /\ PrintT("BAD " \o ToString(c) \o " " \o ToString(e) \o " " \o m)
                 /\ e' = Len(K.events) + 2
                 /\ UNCHANGED <<entries, pages>>
        /\ UNCHANGED <<hist, c>>
Fin == /\ e = Len(K.events) + 1
       /\ IF Spread THEN PrintT("OK " \o ToString(c))
          ELSE PrintT("BAD " \o ToString(c) \o " " \o ToString(Len(K.events)) \o " random pages are all of the same query")
       /\ e' = e + 1 /\ UNCHANGED <<vars, c>>
TraceSpec == TraceInit /\ [][Play \/ Fin]_tvars
=============================================================================
