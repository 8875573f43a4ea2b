----------------------------- MODULE MCDeliver -----------------------------
(***************************************************************************)
(* Every way in which the writes of two slots of a leader can reach a      *)
(* follower over a disturbed stream: any sequence of Depth messages out of *)
(* the writes 1..Last of each slot, and for each gap any moment at which   *)
(* the snapshot that repairs it may have been taken.  Printed for the      *)
(* driver, which makes the real follower see exactly this.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Last, Depth, Two
VARIABLES f,      \* slot -> number of its last write
          init,   \* the numbers which the first snapshot carried
          hist    \* the messages: [s |-> slot, n |-> number, j |-> number of the snapshot fetched because of it, or 0]
vars == <<f, init, hist>>
Slots == IF Two THEN {1, 2} ELSE {1}
R == INSTANCE Repl WITH MaxWrites <- Last, MaxFaults <- 0, Faults <- {}, last <- 0, conn <- 0, stream <- 0, snap <- 0, need <- 0, fetching <- 0, got <- 0, faults <- 0

Init == /\ f \in [Slots -> 0..(IF Two THEN 1 ELSE Last)]
        /\ init = f /\ hist = <<>>
Deliver(s, n) ==
    LET v == R!Verdict(f[s], n) IN
    /\ CASE v = "apply" -> f' = [f EXCEPT ![s] = n] /\ hist' = Append(hist, [s |-> s, n |-> n, j |-> 0])
         [] v = "skip" -> f' = f /\ hist' = Append(hist, [s |-> s, n |-> n, j |-> 0])
         [] v = "fetch" -> \E j \in n..Last : f' = [f EXCEPT ![s] = j] /\ hist' = Append(hist, [s |-> s, n |-> n, j |-> j])
Next == /\ Len(hist) < Depth
        /\ \E s \in Slots, n \in 1..Last : Deliver(s, n)
        /\ init' = init
Spec == Init /\ [][Next]_vars
\* no message is ever applied over a gap, and none twice: the number of a slot only grows
Grows == [][\A s \in Slots : f'[s] >= f[s]]_vars
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson([i |-> [s \in 1..2 |-> IF s \in Slots THEN init[s] ELSE 0], m |-> hist]))
=============================================================================
