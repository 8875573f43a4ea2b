-------------------------------- MODULE Obey --------------------------------
(***************************************************************************)
(* A server that obeys a placement driver.  The driver tells it a status   *)
(* t = [id, group, lead, leader] (leader: <<>> or one [id, server,         *)
(* forward]) when it registers and, if the driver's view differs from what *)
(* the server reports, with each heartbeat.                                *)
(* Every change of the leader to follow starts a new epoch with a task of  *)
(* its own, which registers with that leader, takes its snapshot and       *)
(* applies its writes.  Tasks of earlier epochs may linger.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* whom a server follows that has been told t *)
Follows(t) == IF t.lead \/ t.leader = <<>> THEN <<>>
              ELSE IF t.leader[1].id = t.id THEN <<>>
              ELSE t.leader
(* what it reports after an answer (<<>>: the driver agrees with what was reported) *)
After(t, answer) == IF answer = <<>> THEN t ELSE answer[1]

CONSTANTS Me, Others, MaxEpoch, Guarded
VARIABLES told, epoch, tasks, data, asked
vars == <<told, epoch, tasks, data, asked>>

Info(x) == [id |-> x, server |-> x, forward |-> x]
Status(lead, leader) == [id |-> Me, group |-> 1, lead |-> lead, leader |-> leader]
Statuses == { Status(a, l) : a \in BOOLEAN, l \in {<<>>} \union { <<Info(x)>> : x \in {Me} \union Others } }

\* data: whose keyspace the server holds: "own", or the epoch and leader of the task that replaced it last
Init == /\ told \in Statuses /\ epoch = 1 /\ data = <<0, Me>> /\ asked = told
        /\ tasks = IF Follows(told) = <<>> THEN {} ELSE { [epoch |-> 1, of |-> Follows(told)[1].id, st |-> "new"] }

\* one heartbeat: the driver answers with any status, or agrees
Heartbeat(t) == /\ asked' = told            \* what the server reported
                /\ told' = t
                /\ IF Follows(t) = Follows(told) THEN UNCHANGED <<epoch, tasks>>
                   ELSE /\ epoch < MaxEpoch /\ epoch' = epoch + 1
                        /\ tasks' = IF Follows(t) = <<>> THEN tasks ELSE tasks \union { [epoch |-> epoch + 1, of |-> Follows(t)[1].id, st |-> "new"] }
                /\ data' = data
Current(k) == ~Guarded \/ k.epoch = epoch
Set(k, s) == tasks' = (tasks \ {k}) \union { [k EXCEPT !.st = s] }
\* the task replaces the server's data; a task that is no longer current may not
Sync(k) == /\ k.st = "new"
           /\ IF Current(k) THEN Set(k, "following") /\ data' = <<k.epoch, k.of>> ELSE tasks' = tasks \ {k} /\ data' = data
           /\ UNCHANGED <<told, epoch, asked>>
Lost(k) == k.st = "following" /\ Set(k, "new") /\ UNCHANGED <<told, epoch, data, asked>>
End(k) == ~(k.epoch = epoch) /\ Guarded /\ tasks' = tasks \ {k} /\ UNCHANGED <<told, epoch, data, asked>>
Next == (\E t \in Statuses : Heartbeat(t)) \/ (\E k \in tasks : Sync(k) \/ Lost(k) \/ End(k))
Spec == Init /\ [][Next]_vars

TypeOK == told \in Statuses /\ \A k \in tasks : k.epoch <= epoch
(* the data of a leader comes in only while it is the leader to follow *)
OnlyTheLeader == [][data' # data => /\ Follows(told) # <<>> /\ data'[2] = Follows(told)[1].id]_vars
OneCurrent == Cardinality({ k \in tasks : k.epoch = epoch }) = IF Follows(told) = <<>> THEN 0 ELSE 1
ReportsTold == [][asked' # asked => asked' = told]_vars
=============================================================================
