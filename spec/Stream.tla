------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The write stream.  A write locks its slot, changes it and takes the     *)
(* slot's next number; the message goes to the queue of every subscriber   *)
(* in one step (the list of subscribers has a lock of its own); the reply  *)
(* is sent.  A connection takes messages from its queue when the replica   *)
(* reads.  Replicas come, stop reading, and go at any moment.              *)
(*                                                                         *)
(* How = "inside"   the message is queued before the slot is released      *)
(*       "outside"  after it                                               *)
(*       "bounded"  inside, but a full queue loses the message             *)
(*       "waiting"  inside, but a full queue makes the writer wait         *)
(* Only "inside" has the properties.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Slots, Writers, Subs, MaxWrites, How

Cap == 2                 \* of a queue in "bounded" and "waiting"

VARIABLES lock, num, wpc, done,
          state,         \* subscriber -> "new", "on", "gone"
          queue,         \* subscriber -> messages not sent to it yet
          read,          \* subscriber -> messages it has read
          from           \* subscriber -> slot -> number of the last write queued for anybody when it joined
vars == <<lock, num, wpc, done, state, queue, read, from>>
subvars == <<state, queue, read, from>>

Init == /\ lock = [s \in Slots |-> "free"] /\ num = [s \in Slots |-> 0]
        /\ wpc = [w \in Writers |-> <<"idle">>] /\ done = [w \in Writers |-> 0]
        /\ state = [r \in Subs |-> "new"] /\ queue = [r \in Subs |-> <<>>] /\ read = queue
        /\ from = [r \in Subs |-> num]

Lock(w, s) == /\ wpc[w] = <<"idle">> /\ done[w] < MaxWrites /\ lock[s] = "free"
              /\ lock' = [lock EXCEPT ![s] = w]
              /\ wpc' = [wpc EXCEPT ![w] = <<"locked", s>>]
              /\ UNCHANGED <<num, done>> /\ UNCHANGED subvars
Change(w) == /\ wpc[w][1] = "locked"
             /\ LET s == wpc[w][2] IN
                /\ num' = [num EXCEPT ![s] = @ + 1]
                /\ wpc' = [wpc EXCEPT ![w] = <<"changed", s, num[s] + 1>>]
                /\ lock' = IF How = "outside" THEN [lock EXCEPT ![s] = "free"] ELSE lock
             /\ UNCHANGED done /\ UNCHANGED subvars
Full(r) == How \in {"bounded", "waiting"} /\ Len(queue[r]) >= Cap
Push(w) == /\ wpc[w][1] = "changed"
           /\ LET s == wpc[w][2] IN
              /\ How = "waiting" => \A r \in Subs : state[r] = "on" => ~Full(r)
              /\ queue' = [r \in Subs |-> IF state[r] = "on" /\ ~Full(r) THEN Append(queue[r], <<s, wpc[w][3]>>) ELSE queue[r]]
              /\ lock' = IF How = "outside" THEN lock ELSE [lock EXCEPT ![s] = "free"]
           /\ wpc' = [wpc EXCEPT ![w] = <<"idle">>]
           /\ done' = [done EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<num, state, read, from>>
Writer(w) == Change(w) \/ Push(w) \/ \E s \in Slots : Lock(w, s)

\* what has been queued of a slot: everything but the write that is under way
Queued(s) == num[s] - Cardinality({w \in Writers : wpc[w][1] = "changed" /\ wpc[w][2] = s})
Join(r) == /\ state[r] = "new"
           /\ state' = [state EXCEPT ![r] = "on"]
           /\ from' = [from EXCEPT ![r] = [s \in Slots |-> Queued(s)]]
           /\ UNCHANGED <<lock, num, wpc, done, queue, read>>
Read(r) == /\ state[r] = "on" /\ queue[r] # <<>>
           /\ read' = [read EXCEPT ![r] = Append(@, Head(queue[r]))]
           /\ queue' = [queue EXCEPT ![r] = Tail(@)]
           /\ UNCHANGED <<lock, num, wpc, done, state, from>>
Leave(r) == /\ state[r] = "on"
            /\ state' = [state EXCEPT ![r] = "gone"] /\ queue' = [queue EXCEPT ![r] = <<>>]
            /\ UNCHANGED <<lock, num, wpc, done, read, from>>

Next == (\E w \in Writers : Writer(w)) \/ \E r \in Subs : Join(r) \/ Read(r) \/ Leave(r)
Fair == \A w \in Writers : WF_vars(Change(w) \/ Push(w)) /\ SF_vars(\E s \in Slots : Lock(w, s))
Spec == Init /\ [][Next]_vars /\ Fair                    \* replicas need not read
SpecReading == Spec /\ \A r \in Subs : WF_vars(Read(r))

(* every subscriber gets, slot by slot, every number from the one after those queued before it joined, in order and once *)
Of(r, s) == SelectSeq(read[r], LAMBDA m : m[1] = s)
Numbered == \A r \in Subs, s \in Slots : \A j \in 1..Len(Of(r, s)) : Of(r, s)[j][2] = from[r][s] + j
(* two subscribers get the same messages in the same order, from where the later of them joined *)
SameStream == \A a, b \in Subs : (state[a] = "on" /\ state[b] = "on") =>
                  LET x == read[a] \o queue[a]  y == read[b] \o queue[b] IN IsSuffix(x, y) \/ IsSuffix(y, x)
(* a write that was answered is on its way to everybody who had joined *)
NothingLost == \A r \in Subs : state[r] = "on" =>
                  LET x == read[r] \o queue[r] IN \A s \in Slots : Cardinality({j \in 1..Len(x) : x[j][1] = s}) = Queued(s) - from[r][s]
(* no writer waits for a replica *)
Served == <>(\A w \in Writers : done[w] = MaxWrites)
Delivered == \A r \in Subs : state[r] = "on" ~> (state[r] = "gone" \/ queue[r] = <<>>)
=============================================================================
