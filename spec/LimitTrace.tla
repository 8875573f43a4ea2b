----------------------------- MODULE LimitTrace -----------------------------
(* A history driven into the real server: op = "reset" (n = the limit), "open" id, "end" id how, "fds" room (from now on there   *)
(* are descriptors for room connections); served = the connections that were found to be served once the server was quiescent. *)
EXTENDS Limit, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, open, n, room, served
vars == <<i, open, n, room, served>>
Init == i = 1 /\ open = <<>> /\ n = 0 /\ room = 0 /\ served = {}
Step == /\ i <= Len(Log)
        /\ LET e == Log[i] IN
           CASE e.op = "reset" -> open' = <<>> /\ n' = e.n /\ room' = e.n
             [] e.op = "open" -> open' = Append(open, e.id) /\ UNCHANGED <<n, room>>
             [] e.op = "end" -> e.how \in Endings /\ open' = SelectSeq(open, LAMBDA x : x # e.id) /\ UNCHANGED <<n, room>>
             [] e.op = "fds" -> room' = e.room /\ UNCHANGED <<n, open>>
        /\ served' = (IF Log[i].op = "reset" THEN {} ELSE ServedNow(open', served, n', room'))
        /\ IF served' = Range(Log[i].served) THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([i |-> i, exp |-> served'])) /\ FALSE
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
View == i
Accepted == \/ TLCGet("stats").diameter = Len(Log) + 1
            \/ PrintT("REJECTED") /\ FALSE
=============================================================================
