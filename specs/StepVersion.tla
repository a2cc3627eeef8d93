----------------------------- MODULE StepVersion -----------------------------
(* C18.  Learned pipelines have versions; what is computed with a pipeline    *)
(* is kept under the version of the pipeline and read back by whoever has a   *)
(* pipeline of that version.  A step is made of atoms (what it does and with  *)
(* which parameters) in some form (memory layout, place of its definition,    *)
(* process) which must not matter.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Atoms, MaxLen, Forms, Procs, Docs, Convs, Depth
VARIABLES inst, store, reads, hist
vars == <<inst, store, reads, hist>>
\* an instance: steps [atom, form] and the process it lives in
Content(i) == [k \in DOMAIN inst[i].steps |-> inst[i].steps[k].atom]
\* a step's version is a digest of its atom alone; a pipeline's is the sequence
Digest(s) == <<"step", s.atom>>
Version(i) == [k \in DOMAIN inst[i].steps |-> Digest(inst[i].steps[k])]
FeatureVersion(i, conv) == <<Version(i), conv>>
Contents == UNION {[1..n -> Atoms] : n \in 1..MaxLen}
Init == inst = <<>> /\ store = {} /\ reads = {} /\ hist = <<>>
Log(op, i, steps, lo, hi, doc, conv) ==
    hist' = Append(hist, [op |-> op, i |-> i, steps |-> steps, lo |-> lo, hi |-> hi, doc |-> doc, conv |-> conv])
Build == /\ Len(hist) < Depth
         /\ \E c \in Contents, f \in Forms, p \in Procs :
              /\ inst' = Append(inst, [steps |-> [k \in DOMAIN c |-> [atom |-> c[k], form |-> f]], proc |-> p])
              /\ Log("build", 0, c, 0, 0, 0, 0)
         /\ UNCHANGED <<store, reads>>
\* saved and loaded, here or in another process, which may change its form
Copy == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN inst, f \in Forms, p \in Procs :
             /\ inst' = Append(inst, [steps |-> [k \in DOMAIN inst[i].steps |-> [atom |-> inst[i].steps[k].atom, form |-> f]], proc |-> p])
             /\ Log(IF p = inst[i].proc THEN "reload" ELSE "send", i, <<>>, 0, 0, 0, 0)
        /\ UNCHANGED <<store, reads>>
Slice == /\ Len(hist) < Depth
         /\ \E i \in DOMAIN inst : \E lo, hi \in DOMAIN inst[i].steps :
              /\ lo <= hi
              /\ inst' = Append(inst, [inst[i] EXCEPT !.steps = SubSeq(@, lo, hi)])
              /\ Log("slice", i, <<>>, lo, hi, 0, 0)
         /\ UNCHANGED <<store, reads>>
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Reverse == /\ Len(hist) < Depth
           /\ \E i \in DOMAIN inst :
                /\ Len(inst[i].steps) > 1
                /\ inst' = Append(inst, [inst[i] EXCEPT !.steps = Rev(@)])
                /\ Log("reverse", i, <<>>, 0, 0, 0, 0)
           /\ UNCHANGED <<store, reads>>
\* what is stored under the version is used, and computed and stored otherwise
Read == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN inst, d \in Docs, cv \in Convs :
             LET key == <<d, FeatureVersion(i, cv)>>
                 hit == {s \in store : s.key = key}
                 val == <<d, Content(i), cv>>
             IN  /\ store' = IF hit = {} THEN store \union {[key |-> key, value |-> val]} ELSE store
                 /\ reads' = reads \union {[want |-> val, got |-> IF hit = {} THEN {val} ELSE {s.value : s \in hit}, computed |-> hit = {}]}
                 /\ Log("read", i, <<>>, 0, 0, d, cv)
        /\ UNCHANGED inst
Next == Build \/ Copy \/ Slice \/ Reverse \/ Read
Spec == Init /\ [][Next]_vars
MCView == <<inst, store, reads, Len(hist)>>
\* versions agree exactly when contents do
Injective == \A i, j \in DOMAIN inst : (Version(i) = Version(j)) <=> (Content(i) = Content(j))
\* nobody reads what was computed with another pipeline
NeverStale == \A r \in reads : r.got = {r.want}
\* and nothing is computed twice
OncePerContent == \A s, t \in store : s.value = t.value => s = t
Emit == (Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
