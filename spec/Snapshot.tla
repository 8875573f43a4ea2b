------------------------------ MODULE Snapshot ------------------------------
(***************************************************************************)
(* How an image of all slots is taken while clients write.  A write holds  *)
(* the lock of its slot while it changes the slot and puts its message     *)
(* into the write stream.  The snapshot takes the lock of every slot, then *)
(* the memory is copied (fork) and the locks are given back; the copy is   *)
(* sent slot by slot, as fast as the replica reads it.                     *)
(*                                                                         *)
(* How = "all"   as described                                              *)
(*       "fork"  the copy is made without holding the locks; its owner     *)
(*               takes them in the copy, where nobody ever releases those  *)
(*               that were held                                            *)
(*       "walk"  no copy: every slot is locked and sent in turn            *)
(* Only "all" has the properties; the others are there to show that the    *)
(* properties tell them apart.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Slots, Writers, MaxWrites, How

VARIABLES lock,      \* slot -> "free", "snap" or the writer that holds it
          num,       \* slot -> number of its last write
          sent,      \* slot -> number of the last write of it in the write stream
          wpc,       \* writer -> where it is: <<"idle">>, <<"locked", slot>>, <<"changed", slot>>
          done,      \* writer -> number of writes answered
          pc,        \* snapshot: "idle", "locking", "sending", "ended"
          copy,      \* the copied memory: [lock, num]
          image,     \* slot -> what was sent of it; the domain grows
          req,       \* what every slot had at least when the snapshot was asked for
          seen       \* every state of all slots since the request
vars == <<lock, num, sent, wpc, done, pc, copy, image, req, seen>>

Init == /\ lock = [s \in Slots |-> "free"] /\ num = [s \in Slots |-> 0] /\ sent = num
        /\ wpc = [w \in Writers |-> <<"idle">>] /\ done = [w \in Writers |-> 0]
        /\ pc = "idle" /\ copy = [lock |-> lock, num |-> num] /\ image = <<>> /\ req = num /\ seen = {}

snapvars == <<pc, copy, image, req>>

Lock(w, s) == /\ wpc[w] = <<"idle">> /\ done[w] < MaxWrites /\ lock[s] = "free"
              /\ lock' = [lock EXCEPT ![s] = w] /\ wpc' = [wpc EXCEPT ![w] = <<"locked", s>>]
              /\ UNCHANGED <<num, sent, done, seen>> /\ UNCHANGED snapvars
Change(w) == /\ wpc[w][1] = "locked"
             /\ LET s == wpc[w][2] IN
                /\ num' = [num EXCEPT ![s] = @ + 1]
                /\ wpc' = [wpc EXCEPT ![w] = <<"changed", s>>]
             /\ seen' = IF pc \in {"idle", "ended"} THEN seen ELSE seen \union {num'}
             /\ UNCHANGED <<lock, sent, done>> /\ UNCHANGED snapvars
Publish(w) == /\ wpc[w][1] = "changed"
              /\ LET s == wpc[w][2] IN
                 /\ sent' = [sent EXCEPT ![s] = num[s]]
                 /\ lock' = [lock EXCEPT ![s] = "free"]
              /\ wpc' = [wpc EXCEPT ![w] = <<"idle">>] /\ done' = [done EXCEPT ![w] = @ + 1]
              /\ UNCHANGED <<num, seen>> /\ UNCHANGED snapvars
Writer(w) == Change(w) \/ Publish(w) \/ \E s \in Slots : Lock(w, s)

Request == /\ pc = "idle" /\ pc' = IF How = "all" THEN "locking" ELSE "sending"
           \* what was answered before the request
           /\ req' = sent /\ seen' = {num}
           /\ copy' = IF How = "fork" THEN [lock |-> lock, num |-> num] ELSE copy
           /\ UNCHANGED <<lock, num, sent, wpc, done, image>>
Take(s) == /\ pc = "locking" /\ lock[s] = "free"
           /\ lock' = [lock EXCEPT ![s] = "snap"]
           /\ UNCHANGED <<num, sent, wpc, done, seen>> /\ UNCHANGED snapvars
Copy == /\ pc = "locking" /\ \A s \in Slots : lock[s] = "snap"
        /\ copy' = [lock |-> lock, num |-> num]
        /\ lock' = [s \in Slots |-> "free"]
        /\ pc' = "sending"
        /\ UNCHANGED <<num, sent, wpc, done, image, req, seen>>
\* a slot is sent: happens only when the replica reads
Send(s) == /\ pc = "sending" /\ s \notin DOMAIN image
           /\ CASE How = "all" -> image' = [x \in DOMAIN image \union {s} |-> IF x = s THEN copy.num[s] ELSE image[x]]
                [] How = "fork" -> copy.lock[s] = "free" /\ image' = [x \in DOMAIN image \union {s} |-> IF x = s THEN copy.num[s] ELSE image[x]]
                [] How = "walk" -> lock[s] = "free" /\ image' = [x \in DOMAIN image \union {s} |-> IF x = s THEN num[s] ELSE image[x]]
           /\ UNCHANGED <<lock, num, sent, wpc, done, pc, copy, req, seen>>
End == /\ pc = "sending" /\ DOMAIN image = Slots /\ pc' = "ended"
       /\ UNCHANGED <<lock, num, sent, wpc, done, copy, image, req, seen>>

Snap == Request \/ Copy \/ \E s \in Slots : Take(s)
Replica == End \/ \E s \in Slots : Send(s)
Next == Snap \/ Replica \/ \E w \in Writers : Writer(w)
\* writers and the taking of the snapshot run; taking one lock of many that others contend for is granted in the end
Fair == /\ \A w \in Writers : WF_vars(Change(w) \/ Publish(w)) /\ SF_vars(\E s \in Slots : Lock(w, s))
        /\ WF_vars(Request) /\ WF_vars(Copy) /\ \A s \in Slots : SF_vars(Take(s))
Reading == \A s \in Slots : WF_vars(Send(s)) /\ WF_vars(End)
Spec == Init /\ [][Next]_vars /\ Fair                     \* the replica may stop reading at any moment
SpecReading == Spec /\ Reading

Whole == pc = "ended" => DOMAIN image = Slots
(* the image is the state of all slots at one instant after the request, and shows everything answered before it *)
OneInstant == pc = "ended" => image \in seen /\ \A s \in Slots : image[s] >= req[s]
(* a slot of the image carries the number of a write that is in the write stream: whoever listened before the request misses nothing *)
InStream == \A s \in DOMAIN image : image[s] <= sent[s]
(* nobody waits for the replica *)
Served == <>(\A w \in Writers : done[w] = MaxWrites)
Ends == <>(pc = "ended")
=============================================================================
