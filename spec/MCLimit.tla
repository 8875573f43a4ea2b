------------------------------ MODULE MCLimit ------------------------------
(***************************************************************************)
(* The mechanism: an acceptor that takes a permit, then the next           *)
(* connection from the backlog (also one whose client is already gone),    *)
(* then takes the next permit; a connection task that returns its permit   *)
(* when it ends, however it ends; and an operating system that may have    *)
(* fewer descriptors than there are permits, in which case accepting fails *)
(* and is tried again, the acceptor keeping its permit.  Checked for all   *)
(* histories of at most Conns connections: the permits neither leak nor    *)
(* multiply, and whenever the server has nothing left to do the served     *)
(* connections are those of Limit.tla.                                     *)
(***************************************************************************)
EXTENDS Limit, TLC
CONSTANTS N, Conns
VARIABLES open, backlog, running, permits, holding, next, room
vars == <<open, backlog, running, permits, holding, next, room>>

Init == open = <<>> /\ backlog = <<>> /\ running = {} /\ permits = N /\ holding = FALSE /\ next = 1 /\ room = N
Connect == /\ next <= Conns
           /\ open' = Append(open, next) /\ backlog' = Append(backlog, next) /\ next' = next + 1
           /\ UNCHANGED <<running, permits, holding, room>>
(* the client side of a connection goes away, or does something that will end it *)
End(i) == /\ i \in Range(open)
          /\ open' = SelectSeq(open, LAMBDA x : x # i)
          /\ UNCHANGED <<backlog, running, permits, holding, next, room>>
Acquire == ~holding /\ permits > 0 /\ holding' = TRUE /\ permits' = permits - 1 /\ UNCHANGED <<open, backlog, running, next, room>>
Accept == /\ holding /\ backlog # <<>> /\ Cardinality(running) < room
          /\ running' = running \union {backlog[1]} /\ backlog' = Tail(backlog) /\ holding' = FALSE
          /\ UNCHANGED <<open, permits, next, room>>
(* the task of an ended connection finishes *)
Finish(i) == /\ i \in running /\ i \notin Range(open)
             /\ running' = running \ {i} /\ permits' = permits + 1
             /\ UNCHANGED <<open, backlog, holding, next, room>>
Descriptors(r) == room' = r /\ UNCHANGED <<open, backlog, running, permits, holding, next>>
Next == Connect \/ (\E r \in 0..N : Descriptors(r)) \/ (\E i \in 1..Conns : End(i) \/ Finish(i)) \/ Acquire \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Acquire) /\ WF_vars(Accept) /\ \A i \in 1..Conns : WF_vars(Finish(i))

Conserved == permits + Cardinality(running) + (IF holding THEN 1 ELSE 0) = N
AtMostN == Cardinality(running) <= N
Quiet == ~ENABLED (Acquire \/ Accept \/ \E i \in 1..Conns : Finish(i))
(* with descriptors enough: exactly the first N; with fewer: a prefix, as long as can be, and never cut short *)
QuietServed == Quiet => running = ServedNow(open, running, N, room)
QuietAll == (Quiet /\ room = N) => running = Served(open, N)
EventuallyServed == \A i \in 1..Conns : <>[](room = N) => [](i \in Served(open, N) => <>(i \in running \/ i \notin Range(open)))
=============================================================================
