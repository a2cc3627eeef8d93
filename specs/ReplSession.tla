---------------------------- MODULE ReplSession -----------------------------
(* C26: sessions with two applications in one process.  A statement is        *)
(* executed once, in the namespace of its application; its answer is a value, *)
(* what it printed, or its error; some values get a link, whose content stays *)
(* what the value was then.                                                   *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Ks

VARIABLES ns,        \* application -> variable -> value (-1: not defined)
          ticks,     \* application -> how often a function with an effect was called
          links,     \* <<application, value>> of every link that was given
          answer,
          hist
vars == <<ns, ticks, links, answer, hist>>

Apps == {1, 2}
Names == {"x", "y"}
Undef == -1

(* res: the text of the answer; err: the error; link: an answer with a link   *)
Text(s) == [res |-> s, err |-> "", link |-> FALSE, content |-> Undef]
Err(s) == [res |-> "", err |-> s, link |-> FALSE, content |-> Undef]
NL == "\n"
Linked(v) == [res |-> "LINK", err |-> "", link |-> TRUE, content |-> v]

WithVar == {"get", "print", "both", "link", "odd"}
Reply(a, op, v, k) ==
    LET n == IF v \in Names THEN ns[a][v] ELSE 0 IN
    IF op \in WithVar \cup {"inc", "del"} /\ n = Undef THEN Err("NameError")
    ELSE CASE op = "get" -> Text(ToString(n))
           [] op = "print" -> Text(ToString(n) \o NL)
           [] op = "both" -> Text(ToString(n) \o NL \o ToString(n))
           [] op = "link" -> Linked(n)
           [] op = "odd" -> Text("VALUE " \o ToString(n))      \* a value that can't be displayed
           [] op = "fail" -> Err("ZeroDivisionError")
           [] op = "tick" -> Err("SyntaxError")                \* raised by a function that was called
           [] op = "syntax" -> Err("SyntaxError")
           [] op = "exit" -> Err("SystemExit")
           [] op = "ticks" -> Text(ToString(ticks[a]))
           [] OTHER -> Text("")                                 \* set, inc, del

NextNs(a, op, v, k) ==
    IF v \notin Names THEN ns[a]
    ELSE CASE op \in {"set", "fail"} -> [ns[a] EXCEPT ![v] = k]
           [] op = "inc" /\ ns[a][v] # Undef -> [ns[a] EXCEPT ![v] = @ + k]
           [] op = "del" -> [ns[a] EXCEPT ![v] = Undef]
           [] OTHER -> ns[a]

Init == /\ ns = [a \in Apps |-> [v \in Names |-> Undef]] /\ ticks = [a \in Apps |-> 0]
        /\ links = <<>> /\ answer = Text("") /\ hist = <<>>

Say(a, op, v, k) ==
    /\ Len(hist) < Depth
    /\ answer' = Reply(a, op, v, k)
    /\ ns' = [ns EXCEPT ![a] = NextNs(a, op, v, k)]
    /\ ticks' = IF op = "tick" THEN [ticks EXCEPT ![a] = @ + 1] ELSE ticks
    /\ links' = IF answer'.link THEN Append(links, <<a, answer'.content>>) ELSE links
    /\ hist' = Append(hist, [app |-> a, op |-> op, v |-> v, k |-> k])

(* a link that was given, or one that was not *)
Open(a, n) ==
    /\ Len(hist) < Depth
    /\ n <= Len(links)
    /\ answer' = IF links[n][1] = a THEN [res |-> "", err |-> "", link |-> FALSE, content |-> links[n][2]] ELSE Err("404")
    /\ hist' = Append(hist, [app |-> a, op |-> "open", v |-> "", k |-> n])
    /\ UNCHANGED <<ns, ticks, links>>

Next == \E a \in Apps :
          \/ \E v \in Names : \/ \E op \in {"get", "print", "both", "link", "odd", "del"} : Say(a, op, v, 0)
                              \/ \E op \in {"set", "fail", "inc"}, k \in Ks : Say(a, op, v, k)
          \/ \E op \in {"tick", "ticks", "syntax", "exit"} : Say(a, op, "", 0)
          \/ \E n \in 1..Len(links) : Open(a, n)
Spec == Init /\ [][Next]_vars

Bound == ns[1]["x"] < 8 /\ ns[1]["y"] < 8 /\ ns[2]["x"] < 8 /\ ns[2]["y"] < 8
Last == hist'[Len(hist')]
(* an application is told nothing of, and does nothing to, the other one *)
Apart == [][\A a \in Apps : (hist' # hist /\ Last.app # a) => ns'[a] = ns[a] /\ ticks'[a] = ticks[a]]_vars
(* errors leave earlier definitions alone (a statement that fails halfway through keeps what it did) *)
ErrorsKeep == [][(answer'.err # "" /\ hist' # hist /\ Last.op # "fail") => ns' = ns]_vars
LinksStay == [][\A n \in 1..Len(links) : Len(links') >= n /\ links'[n] = links[n]]_vars
LinkIsValueThen == [][Len(links') > Len(links) => links'[Len(links')] = <<Last.app, ns[Last.app][Last.v]>>]_vars
OnlyDefinedAnswered == [][(hist' # hist /\ Last.op \in WithVar /\ ns[Last.app][Last.v] = Undef) => answer'.err = "NameError"]_vars

MCView == <<ns, ticks, links, answer, Len(hist)>>
Gen == \/ Len(hist) < Depth
       \/ hist[1].app # 1
       \/ PrintT("GEN " \o ToJson([ops |-> hist]))
=============================================================================
