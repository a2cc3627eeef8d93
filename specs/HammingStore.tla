---------------------------- MODULE HammingStore ----------------------------
(* C14.  A store of codes on disk, opened by any number of handles in any    *)
(* number of processes.  An append goes through phases (begun, put in the     *)
(* transaction, committed, noted in memory); its process may crash, or the    *)
(* commit may fail, in any of them.  Searches look in the handle's memory,    *)
(* which catches up with the disk when the numbers of entries differ.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Handles, Sizes, Metas, Depth
VARIABLES disk,      \* entries (numbers) committed
          size,      \* code size of the store, 0 while there is none
          meta,      \* metadata
          h,         \* handle -> [open, wo, mem]
          phase,     \* handle -> [p, e] append in flight
          acked,     \* entries whose append returned
          tried,     \* number of entries appends have been attempted for
          maybe,     \* entries of crashed appends, not yet known to be stored or not
          hist
vars == <<disk, size, meta, h, phase, acked, tried, maybe, hist>>
Closed == [open |-> FALSE, wo |-> FALSE, mem |-> {}]
Idle == [p |-> "idle", e |-> 0]
StoreInit == /\ disk = {} /\ size = 0 /\ meta = 0 /\ h = [i \in Handles |-> Closed]
             /\ phase = [i \in Handles |-> Idle] /\ acked = {} /\ tried = 0 /\ maybe = {} /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
\* sz = 0: take the size the store has
CanOpen(sz) == IF size = 0 THEN sz # 0 /\ sz % 8 = 0 ELSE sz \in {0, size}
Open(i, sz, wo) ==
    IF CanOpen(sz)
    THEN /\ size' = (IF size = 0 THEN sz ELSE size)
         /\ h' = [h EXCEPT ![i] = [open |-> TRUE, wo |-> wo, mem |-> IF wo THEN {} ELSE disk]]
         /\ UNCHANGED <<disk, meta, phase, acked, tried, maybe>>
    ELSE UNCHANGED <<disk, size, meta, h, phase, acked, tried, maybe>>
Reject(i) == UNCHANGED <<disk, size, meta, h, phase, acked, tried, maybe>>
Begin(i) == /\ h[i].open /\ phase[i] = Idle
            /\ tried' = tried + 1
            /\ phase' = [phase EXCEPT ![i] = [p |-> "begun", e |-> tried + 1]]
            /\ UNCHANGED <<disk, size, meta, h, acked, maybe>>
\* one writer at a time
Put(i) == /\ phase[i].p = "begun" /\ \A j \in Handles : phase[j].p # "put"
          /\ phase' = [phase EXCEPT ![i].p = "put"]
          /\ UNCHANGED <<disk, size, meta, h, acked, tried, maybe>>
Commit(i) == /\ phase[i].p = "put"
             /\ disk' = disk \cup {phase[i].e}
             /\ phase' = [phase EXCEPT ![i].p = "committed"]
             /\ UNCHANGED <<size, meta, h, acked, tried, maybe>>
Fail(i) == /\ phase[i].p = "put"
           /\ phase' = [phase EXCEPT ![i] = Idle]
           /\ UNCHANGED <<disk, size, meta, h, acked, tried, maybe>>
Note(i) == /\ phase[i].p = "committed"
           /\ h' = [h EXCEPT ![i].mem = IF h[i].wo THEN {} ELSE @ \cup {phase[i].e}]
           /\ acked' = acked \cup {phase[i].e}
           /\ phase' = [phase EXCEPT ![i] = Idle]
           /\ UNCHANGED <<disk, size, meta, tried, maybe>>
Synced(i) == IF Cardinality(h[i].mem) # Cardinality(disk) THEN disk ELSE h[i].mem
Search(i) == /\ h[i].open /\ ~h[i].wo
             /\ h' = [h EXCEPT ![i].mem = Synced(i)]
             /\ UNCHANGED <<disk, size, meta, phase, acked, tried, maybe>>
Close(i) == /\ h' = [h EXCEPT ![i] = Closed] /\ phase' = [phase EXCEPT ![i] = Idle]
            /\ UNCHANGED <<disk, size, meta, acked, tried, maybe>>
SetMeta(i, v) == /\ meta' = v /\ UNCHANGED <<disk, size, h, phase, acked, tried, maybe>>
\* all phases of an append at once, as an observer sees it
Whole(i, e) == /\ disk' = disk \cup {e} /\ acked' = acked \cup {e} /\ tried' = IF e > tried THEN e ELSE tried
               /\ h' = [h EXCEPT ![i].mem = IF h[i].wo THEN {} ELSE @ \cup {e}]
               /\ UNCHANGED <<size, meta, phase, maybe>>
\* a process dies with append e in flight (0: none)
Die(i, e) == /\ h' = [h EXCEPT ![i] = Closed] /\ phase' = [phase EXCEPT ![i] = Idle]
             /\ maybe' = IF e = 0 THEN maybe ELSE maybe \cup {e}
             /\ UNCHANGED <<disk, size, meta, acked, tried>>
---------------------------------------------------------------------------
FineNext == /\ tried < Depth \/ \E i \in Handles : phase[i] # Idle
            /\ \E i \in Handles :
                \/ ~h[i].open /\ \E sz \in Sizes : \E wo \in BOOLEAN : Open(i, sz, wo)
                \/ tried < Depth /\ Begin(i)
                \/ Put(i) \/ Commit(i) \/ Fail(i) \/ Note(i)
                \/ phase[i] = Idle /\ (Search(i) \/ (h[i].open /\ Close(i)))
                \/ h[i].open /\ Die(i, 0)
            /\ UNCHANGED hist
FineSpec == StoreInit /\ [][FineNext]_vars
Retained == acked \subseteq disk /\ disk \subseteq 1..tried
NoGhost == \A i \in Handles : h[i].mem \subseteq disk
\* comparing numbers is enough to notice what others have added
SyncExact == \A i \in Handles : (h[i].open /\ ~h[i].wo) => Synced(i) = disk
WriteOnly == \A i \in Handles : h[i].wo => h[i].mem = {}
Exclusive == \A i, j \in Handles : (phase[i].p = "put" /\ phase[j].p = "put") => i = j
SizeFixed == [][size # 0 => size' = size]_vars
Durable == [][disk \subseteq disk']_vars
---------------------------------------------------------------------------
\* histories for the real store to follow
GenNext == /\ Len(hist) < Depth
           /\ \E i \in Handles :
              \/ ~h[i].open /\ \E sz \in Sizes : \E wo \in BOOLEAN :
                    Open(i, sz, wo) /\ Log([op |-> "open", h |-> i, size |-> sz, wo |-> wo])
              \/ h[i].open /\ Whole(i, tried + 1) /\ Log([op |-> "append", h |-> i])
              \/ h[i].open /\ Reject(i) /\ Log([op |-> "badappend", h |-> i])
              \/ h[i].open /\ tried' = tried + 1 /\ UNCHANGED <<disk, size, meta, h, phase, acked, maybe>>
                    /\ Log([op |-> "failappend", h |-> i])
              \/ Search(i) /\ Log([op |-> "search", h |-> i])
              \/ h[i].open /\ Close(i) /\ Log([op |-> "close", h |-> i])
              \/ h[i].open /\ \E p \in {"begin", "put", "commit", "idle"} :
                    Die(i, 0) /\ Log([op |-> "crash", h |-> i, at |-> p])
GenSpec == StoreInit /\ [][GenNext]_vars
Emit == (Len(hist) = Depth /\ acked # {} /\ \E k \in DOMAIN hist : hist[k].op = "search")
          => PrintT("GEN " \o ToJson(hist))
MCView == <<disk, size, h, phase, acked, tried>>
=============================================================================
