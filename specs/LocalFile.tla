------------------------------ MODULE LocalFile ------------------------------
(* C23.  Clients ask for a remote file; whoever finds no local copy downloads *)
(* it piece by piece, beside the place of the copy, and puts it there when it *)
(* has all of it.  A download may fail or its process die at any point; the   *)
(* remote file may change.                                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Clients, Pieces, Versions, Depth
VARIABLES remote,  \* the version of the remote file
          local,   \* 0, or the version of the local copy
          got,     \* what every client has of which version: [v, n], n = -1: not asking
          result,  \* what every client was told last: 0 nothing, -1 an error, or a version
          loads,   \* downloads begun
          hist
vars == <<remote, local, got, result, loads, hist>>
Not == [v |-> 0, n |-> -1]
Init == remote = 1 /\ local = 0 /\ got = [x \in Clients |-> Not] /\ result = [x \in Clients |-> 0] /\ loads = 0 /\ hist = <<>>
Note(o, x) == hist' = Append(hist, [op |-> o, cl |-> x])
Ask == /\ Len(hist) < Depth
       /\ \E x \in Clients : /\ got[x] = Not /\ Note("ask", x)
             /\ IF local # 0 THEN result' = [result EXCEPT ![x] = local] /\ UNCHANGED <<got, loads>>
                ELSE got' = [got EXCEPT ![x] = [v |-> remote, n |-> 0]] /\ result' = [result EXCEPT ![x] = 0] /\ loads' = loads + 1
       /\ UNCHANGED <<remote, local>>
Piece == /\ \E x \in Clients : /\ got[x].n \in 0..(Pieces - 1) /\ Note("piece", x)
                               /\ got' = [got EXCEPT ![x].n = @ + 1]
         /\ UNCHANGED <<remote, local, result, loads>>
Finish == /\ \E x \in Clients : /\ got[x].n = Pieces /\ Note("finish", x)
                                /\ local' = got[x].v /\ result' = [result EXCEPT ![x] = got[x].v]
                                /\ got' = [got EXCEPT ![x] = Not]
          /\ UNCHANGED <<remote, loads>>
Fail == /\ \E x \in Clients : \E how \in {"fail", "die"} :
              /\ got[x].n \in 0..Pieces /\ Note(how, x)
              /\ got' = [got EXCEPT ![x] = Not]
              /\ result' = [result EXCEPT ![x] = IF how = "fail" THEN -1 ELSE 0]
        /\ UNCHANGED <<remote, local, loads>>
Change == /\ Len(hist) < Depth /\ remote < Versions /\ remote' = remote + 1 /\ Note("change", 0)
          /\ UNCHANGED <<local, got, result, loads>>
Next == Ask \/ Piece \/ Finish \/ Fail \/ Change
Spec == Init /\ [][Next]_vars
MCView == <<remote, local, got, result, loads, Len(hist)>>
Whole == /\ local \in 0..Versions
         /\ \A x \in Clients : result[x] > 0 => local # 0
\* a copy stays until a download that had begun before is put in its place
Kept == [][local # 0 => (local' = local \/ \E x \in Clients : got[x].n = Pieces /\ local' = got[x].v)]_vars
NoNetwork == [][loads' # loads => local = 0]_vars
Retry == [][\A x \in Clients : (result[x] = -1 /\ local = 0 /\ result'[x] # -1) => loads' = loads + 1]_vars
Emit == (Len(hist) >= Depth /\ \A x \in Clients : got[x] = Not) => PrintT("GEN " \o ToJson(hist))
=============================================================================
