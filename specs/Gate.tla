-------------------------------- MODULE Gate --------------------------------
(* C24: a web application started with a secret.  Clients send requests to    *)
(* its routes, guess the secret, and carry cookies: none, one made up, one    *)
(* that was altered, one from another application (with another secret), or   *)
(* one handed over by a client who signed in.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Detail    \* Detail: every route and method rather than classes of them

VARIABLES kind, protected,
          jar,        \* client -> the cookie it sends
          members,    \* ghost: clients that know the secret, or were trusted by one that does
          effects,    \* how often something was executed on behalf of a request
          served,     \* clients that were served something besides signing in
          hist
vars == <<kind, protected, jar, members, effects, served, hist>>

Clients == {"a", "b"}
Kinds == {"repl", "search", "monitor"}
Jars == {"none", "good", "forged", "tampered", "foreign"}
Words == {"right", "wrong", "empty", "missing", "near"}
Routes(k) == CASE k = "repl" -> {"page", "feature", "repl", "temp"}
               [] k = "search" -> {"page", "feature", "search"}
               [] OTHER -> {"page", "feature", "repl", "temp", "graph", "socket"}
Natural(r) == IF r = "repl" THEN "POST" ELSE "GET"
(* requests that run code, search or register something when they are served *)
Effect(r, m) == /\ r \in {"repl", "search", "socket", "feature"}
                /\ m = Natural(r)
Methods == IF Detail THEN {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"} ELSE {"natural", "other"}

Allowed(c) == IF protected THEN jar[c] = "good" ELSE TRUE

Init == /\ kind \in Kinds /\ protected \in BOOLEAN
        /\ jar = [c \in Clients |-> "none"] /\ members = {} /\ effects = 0 /\ served = {}
        /\ hist = <<>>

Add(e) == hist' = Append(hist, e)

SignIn(c, w) ==
    /\ Len(hist) < Depth
    /\ protected
    /\ jar' = IF w = "right" THEN [jar EXCEPT ![c] = "good"] ELSE jar
    /\ members' = IF w = "right" THEN members \cup {c} ELSE members
    /\ Add([ev |-> "login", c |-> c, x |-> w, m |-> ""])
    /\ UNCHANGED <<kind, protected, effects, served>>

(* the client changes the cookie it sends *)
Cookie(c, k) ==
    /\ Len(hist) < Depth
    /\ protected
    /\ jar[c] # k
    /\ k # "good"
    /\ (k = "tampered") => jar[c] = "good"
    /\ jar' = [jar EXCEPT ![c] = k]
    /\ Add([ev |-> "cookie", c |-> c, x |-> k, m |-> ""])
    /\ UNCHANGED <<kind, protected, members, effects, served>>

Share(c, d) ==
    /\ Len(hist) < Depth
    /\ c # d /\ jar[c] = "good" /\ jar[d] # "good"
    /\ jar' = [jar EXCEPT ![d] = "good"]
    /\ members' = members \cup {d}
    /\ Add([ev |-> "share", c |-> c, x |-> d, m |-> ""])
    /\ UNCHANGED <<kind, protected, effects, served>>

Request(c, r, m) ==
    /\ Len(hist) < Depth
    /\ LET real == IF m = "natural" THEN Natural(r) ELSE m
       IN  effects' = IF Allowed(c) /\ Effect(r, real) THEN effects + 1 ELSE effects
    /\ served' = IF Allowed(c) THEN served \cup {c} ELSE served
    /\ Add([ev |-> "req", c |-> c, x |-> r, m |-> m])
    /\ UNCHANGED <<kind, protected, jar, members>>

Next == \/ \E c \in Clients, w \in Words : SignIn(c, w)
        \/ \E c \in Clients, k \in Jars : Cookie(c, k)
        \/ \E c, d \in Clients : Share(c, d)
        \/ \E c \in Clients, r \in Routes(kind), m \in Methods : Request(c, r, m)

Spec == Init /\ [][Next]_vars

OnlyMembersServed == protected => served \subseteq members
NothingRunsBeforeSigningIn == (protected /\ members = {}) => effects = 0
OpenServesAll == [][\A c \in Clients : (~protected /\ hist' # hist /\ hist'[Len(hist')].c = c /\ hist'[Len(hist')].ev = "req") => c \in served']_vars
GoodMeansMember == \A c \in Clients : jar[c] = "good" => c \in members

MCView == <<kind, protected, jar, members, effects, served, Len(hist)>>
HistView == <<kind, protected, hist>>
(* symmetric behaviours once; a behaviour worth replaying ends with a request *)
Gen == \/ hist = <<>>
       \/ Len(hist) < Depth
       \/ hist[1].c # "a"
       \/ hist[Len(hist)].ev # "req"
       \/ PrintT("GEN " \o ToJson([kind |-> kind, protected |-> protected, ops |-> hist]))
=============================================================================
