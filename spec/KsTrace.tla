------------------------------ MODULE KsTrace ------------------------------
(***************************************************************************)
(* Accepts an execution recorded on the real server iff it is a behaviour  *)
(* of Keyspace.  The ndjson file named by TRACE holds one event per line:  *)
(* the command (field op and arguments), now = clock at which it ran, and  *)
(* r = the reply that was observed.  op = "reset" starts a fresh keyspace. *)
(* A command that was read from a replication stream has no reply (r.k =   *)
(* "skip") but a sequence number id in its slot: the numbers of a slot are *)
(* 1, 2, 3, ...  A snapshot (op "contents") may carry the numbers it       *)
(* claims for its slots.                                                   *)
(***************************************************************************)
EXTENDS Keyspace, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, kv, blobs, seq
vars == <<i, kv, blobs, seq>>

LastId(s) == IF s \in DOMAIN seq THEN seq[s] ELSE 0
Init == i = 1 /\ kv = Empty /\ blobs = Empty /\ seq = Empty

Report(x, o) == PrintT("MISMATCH " \o ToJson([i |-> i, exp |-> x, obs |-> o]))

Step ==
    /\ i <= Len(Log)
    /\ LET e == Log[i] IN
       IF e.op = "reset" THEN kv' = Empty /\ blobs' = Empty /\ seq' = Empty
       ELSE LET x == Apply(kv, e.now, e, blobs) IN
            /\ \/ e.r.k = "skip"
               \/ e.r.k # "skip" /\ ReplyOk(x.r, e.r)
               \/ e.r.k # "skip" /\ ~ReplyOk(x.r, e.r) /\ Report(x.r, e.r) /\ FALSE
            /\ IF "id" \notin DOMAIN e THEN seq' = seq
               ELSE /\ \/ e.id = LastId(e.slot) + 1
                       \/ e.id # LastId(e.slot) + 1 /\ Report([slot |-> e.slot, id |-> LastId(e.slot) + 1], [id |-> e.id]) /\ FALSE
                    /\ seq' = With(seq, e.slot, e.id)
            /\ IF "ids" \notin DOMAIN e THEN TRUE
               ELSE \A p \in Range(e.ids) :
                       \/ LastId(p[1]) = p[2]
                       \/ LastId(p[1]) # p[2] /\ Report([slot |-> p[1], id |-> LastId(p[1])], [id |-> p[2]]) /\ FALSE
            /\ kv' = x.kv
            /\ IF x.r.k # "blob" THEN blobs' = blobs
               ELSE IF e.r.v \in DOMAIN blobs
                    THEN blobs' = blobs /\ blobs[e.r.v].t = x.r.v.t /\ blobs[e.r.v].v = x.r.v.v
                    ELSE blobs' = With(blobs, e.r.v, x.r.v)
    /\ i' = i + 1

Spec == Init /\ [][Step]_vars
View == i
Done == TLCGet("level")
Accepted ==
    \/ TLCGet("stats").diameter = Len(Log) + 1
    \/ PrintT("REJECTED " \o ToJson([reached |-> TLCGet("stats").diameter, len |-> Len(Log)])) /\ FALSE
=============================================================================
