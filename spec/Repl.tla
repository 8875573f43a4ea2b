-------------------------------- MODULE Repl --------------------------------
(***************************************************************************)
(* Replication of one leader to one follower.  Every slot of the leader    *)
(* numbers its writes 1, 2, 3, ...  The follower registers for the write   *)
(* stream, then takes a snapshot of every slot, then applies the stream.   *)
(* A snapshot of a slot carries the number of its last write.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Slots, MaxWrites, MaxFaults, Faults

(* What a follower whose slot has incorporated the writes 1..f does with the message that carries write n of that slot. *)
Verdict(f, n) == IF n = f + 1 THEN "apply" ELSE IF n <= f THEN "skip" ELSE "fetch"

VARIABLES last,       \* slot -> number of writes of the leader
          conn,       \* "down", "registered" (stream only), "following"
          stream,     \* messages on their way: sequence of <<slot, number>>
          snap,       \* the full snapshot being transferred: slot -> number, as of the moment it was taken
          need,       \* slots of it which have not arrived
          fetching,   \* the slots asked for again (at most one)
          got,        \* slot -> the sequence of writes incorporated by the follower
          faults
vars == <<last, conn, stream, snap, need, fetching, got, faults>>

UpTo(n) == [j \in 1..n |-> j]
F(s) == Len(got[s])                          \* meaningful as long as Faithful holds

Init == /\ last \in [Slots -> 0..1] /\ conn = "down" /\ stream = <<>>
        /\ snap = [s \in Slots |-> 0] /\ need = {} /\ fetching = {}
        /\ got = [s \in Slots |-> <<>>] /\ faults = 0

Write(s) == /\ last[s] < MaxWrites
            /\ last' = [last EXCEPT ![s] = @ + 1]
            /\ stream' = IF conn = "down" THEN stream ELSE Append(stream, <<s, last[s] + 1>>)
            /\ UNCHANGED <<conn, snap, need, fetching, got, faults>>

Register == /\ conn = "down" /\ need = {}
            /\ conn' = "registered" /\ stream' = <<>>
            /\ UNCHANGED <<last, snap, need, fetching, got, faults>>
TakeSnapshot == /\ conn = "registered"
                /\ snap' = last /\ need' = Slots /\ conn' = "following"
                /\ UNCHANGED <<last, stream, fetching, got, faults>>
Arrive(s) == /\ s \in need
             /\ got' = [got EXCEPT ![s] = UpTo(snap[s])]
             /\ need' = need \ {s}
             /\ UNCHANGED <<last, conn, stream, snap, fetching, faults>>

\* the message at the head of the stream, when its slot is not waiting for a snapshot
Process == /\ conn = "following" /\ stream # <<>> /\ fetching = {}
           /\ LET s == stream[1][1]  n == stream[1][2] IN
              /\ s \notin need
              /\ CASE Verdict(F(s), n) = "apply" -> got' = [got EXCEPT ![s] = Append(@, n)] /\ stream' = Tail(stream) /\ UNCHANGED fetching
                   [] Verdict(F(s), n) = "skip" -> stream' = Tail(stream) /\ UNCHANGED <<got, fetching>>
                   [] Verdict(F(s), n) = "fetch" -> fetching' = {s} /\ UNCHANGED <<got, stream>>
           /\ UNCHANGED <<last, conn, snap, need, faults>>
Fetched(s) == /\ s \in fetching
              /\ got' = [got EXCEPT ![s] = UpTo(last[s])]
              /\ fetching' = {}
              /\ UNCHANGED <<last, conn, stream, snap, need, faults>>

Without(q, j) == [x \in 1..(Len(q) - 1) |-> IF x < j THEN q[x] ELSE q[x + 1]]
Fault == /\ faults < MaxFaults
         /\ faults' = faults + 1
         /\ \/ /\ "break" \in Faults /\ conn # "down"           \* the connection is lost with everything on it
               /\ conn' = "down" /\ stream' = <<>> /\ fetching' = {} /\ UNCHANGED <<got, need>>
            \/ /\ "interrupt" \in Faults /\ need # {}             \* the snapshot is cut off, another is taken
               /\ conn' = "registered" /\ need' = {} /\ UNCHANGED <<stream, fetching, got>>
            \/ /\ "lose" \in Faults
               /\ \E j \in 1..Len(stream) : stream' = Without(stream, j)
               /\ UNCHANGED <<conn, fetching, got, need>>
            \/ /\ "repeat" \in Faults
               /\ \E j \in 1..Len(stream) : stream' = Append(stream, stream[j])
               /\ UNCHANGED <<conn, fetching, got, need>>
            \/ /\ "swap" \in Faults
               /\ \E j \in 1..(Len(stream) - 1) : stream' = [stream EXCEPT ![j] = stream[j + 1], ![j + 1] = stream[j]]
               /\ UNCHANGED <<conn, fetching, got, need>>
         /\ UNCHANGED <<last, snap>>

Steps == Register \/ TakeSnapshot \/ Process \/ \E s \in Slots : Arrive(s) \/ Fetched(s)
Next == Steps \/ Fault \/ \E s \in Slots : Write(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Register) /\ WF_vars(TakeSnapshot) /\ WF_vars(Process)
             /\ \A s \in Slots : WF_vars(Arrive(s)) /\ WF_vars(Fetched(s))

(* no write twice, out of order or over a gap *)
Faithful == \A s \in Slots : got[s] = UpTo(Len(got[s])) /\ Len(got[s]) <= last[s]
(* a follower is only behind in a slot by what is on its way, unless messages were lost *)
NothingMissing == (conn = "following" /\ need = {} /\ fetching = {} /\ "lose" \notin Faults) =>
                      \A s \in Slots : \A n \in (F(s) + 1)..last[s] : \E j \in 1..Len(stream) : stream[j] = <<s, n>>
Converges == <>[](\A s \in Slots : got[s] = UpTo(last[s]))
(* a loss shows at the next message of the slot: when the last write of a slot is on its way and is not lost, the slot becomes whole *)
Repaired == \A s \in Slots :
    (conn = "following" /\ last[s] = MaxWrites /\ faults = MaxFaults /\ \E j \in 1..Len(stream) : stream[j] = <<s, MaxWrites>>) ~> (got[s] = UpTo(MaxWrites))
=============================================================================
